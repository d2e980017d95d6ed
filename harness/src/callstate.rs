//! Calls a function with chosen contents of all registers, and reads back what it must have kept.
use std::arch::global_asm;

#[repr(C, align(64))]
pub struct In {
    /// rbx rbp r12 r13 r14 r15
    pub kept: [u64; 6],
    /// rax rcx rdx rsi r8 r9 r10 r11
    pub other: [u64; 8],
    pub flags: u64,
    pub mxcsr: u32,
    pub fcw: u16,
    pub wide: u16,
    pub masks: [u64; 8],
    pub vec: [[u8; 64]; 32],
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Out {
    pub kept: [u64; 6],
    /// stack pointer after less before
    pub rsp: u64,
    pub flags: u64,
    pub mxcsr: u32,
    pub fcw: u16,
    /// x87 tag word: 0xffff when the stack is empty
    pub tags: u16,
}
extern "C" {
    fn gv_call_state(f: extern "C" fn(*mut libc::c_void), arg: *mut libc::c_void, i: *const In, o: *mut Out);
}
global_asm!(
    ".globl gv_call_state",
    ".type gv_call_state, @function",
    "gv_call_state:",
    ".irp r, rbx, rbp, r12, r13, r14, r15",
    "push \\r",
    ".endr",
    "sub rsp, 88",
    "mov [rsp], rdi",
    "mov [rsp + 8], rsi",
    "mov [rsp + 16], rdx",
    "mov [rsp + 24], rcx",
    "stmxcsr [rsp + 32]",
    "fnstcw [rsp + 36]",
    "mov [rsp + 40], rsp",
    "cmp word ptr [rdx + 126], 0",
    "lea rax, [rdx + 192]",
    "je 2f",
    ".irp n, 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31",
    "vmovdqu64 zmm\\n, [rax + 64 * \\n]",
    ".endr",
    ".irp n, 1,2,3,4,5,6,7",
    "kmovq k\\n, [rdx + 128 + 8 * \\n]",
    ".endr",
    "jmp 3f",
    "2:",
    ".irp n, 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15",
    "vmovdqu ymm\\n, [rax + 64 * \\n]",
    ".endr",
    "3:",
    "ldmxcsr [rdx + 120]",
    "fldcw [rdx + 124]",
    "mov rbx, [rdx]",
    "mov rbp, [rdx + 8]",
    "mov r12, [rdx + 16]",
    "mov r13, [rdx + 24]",
    "mov r14, [rdx + 32]",
    "mov r15, [rdx + 40]",
    "push qword ptr [rdx + 112]",
    "popfq",
    "mov rax, [rdx + 48]",
    "mov rcx, [rdx + 56]",
    "mov rsi, [rdx + 72]",
    "mov r8, [rdx + 80]",
    "mov r9, [rdx + 88]",
    "mov r10, [rdx + 96]",
    "mov r11, [rdx + 104]",
    "mov rdx, [rdx + 64]",
    "mov rdi, [rsp + 8]",
    "call qword ptr [rsp]",
    "mov rcx, [rsp + 24]",
    "mov [rcx], rbx",
    "mov [rcx + 8], rbp",
    "mov [rcx + 16], r12",
    "mov [rcx + 24], r13",
    "mov [rcx + 32], r14",
    "mov [rcx + 40], r15",
    "mov rax, rsp",
    "sub rax, [rsp + 40]",
    "mov [rcx + 48], rax",
    "pushfq",
    "pop qword ptr [rcx + 56]",
    "cld",
    "stmxcsr [rcx + 64]",
    "fnstcw [rcx + 68]",
    "sub rsp, 32",
    "fnstenv [rsp]",
    "movzx eax, word ptr [rsp + 8]",
    "mov [rcx + 70], ax",
    "add rsp, 32",
    "fninit",
    "ldmxcsr [rsp + 32]",
    "fldcw [rsp + 36]",
    "vzeroupper",
    "add rsp, 88",
    ".irp r, r15, r14, r13, r12, rbp, rbx",
    "pop \\r",
    ".endr",
    "ret",
);

extern "C" fn enter(p: *mut libc::c_void) {
    let f = unsafe { &mut *(p as *mut &mut dyn FnMut()) };
    f();
}
/// leaves junk where the callee's frames will be
#[inline(never)]
fn litter(seed: u64) {
    let mut a = [0u64; 4096];
    let mut x = seed;
    for w in a.iter_mut() {
        x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
        unsafe { std::ptr::write_volatile(w, if seed < 2 { seed.wrapping_neg() } else { x }) };
    }
}
#[inline(never)]
pub fn call(i: &In, junk: u64, f: &mut dyn FnMut()) -> Out {
    let mut o = Out::default();
    let mut f: &mut dyn FnMut() = f;
    litter(junk);
    unsafe { gv_call_state(enter, &mut f as *mut _ as *mut libc::c_void, i, &mut o) };
    o
}
