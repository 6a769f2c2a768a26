// Every instruction form the assembler offered when this was written: name and operand types.
// One line per form: `forms!{ method Type operands… }`; committed, not derived from the code under test.
use super::xop::*;
use xten::asm::*;

pub static FORMS: &[Form] = &[
    Form { name: "adcb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.adcb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "adcb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.adcb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "adcb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.adcb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "adcb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.adcb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.adcb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.adcb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.adcl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.adcl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.adcl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.adcl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.adcl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.adcl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.adcl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "adcl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.adcl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.adcq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.adcq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.adcq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.adcq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.adcq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.adcq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.adcq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "adcq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.adcq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.adcw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.adcw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.adcw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.adcw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.adcw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.adcw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.adcw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "adcw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.adcw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "addb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.addb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "addb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.addb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.addb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "addb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.addb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.addb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.addb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.addl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.addl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.addl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.addl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.addl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.addl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.addl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "addl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.addl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "addpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.addpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "addpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.addpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.addps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "addps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.addps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.addq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.addq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.addq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.addq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.addq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.addq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.addq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "addq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.addq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "addsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.addsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "addsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.addsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.addss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "addss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.addss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.addw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.addw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.addw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.addw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.addw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.addw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.addw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "addw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.addw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "andb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.andb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "andb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.andb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.andb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "andb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.andb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.andb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.andb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.andl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.andl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.andl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.andl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.andl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.andl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.andl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "andl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.andl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "andnpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.andnpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "andnpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.andnpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andnps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.andnps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "andnps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.andnps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.andpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "andpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.andpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.andps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "andps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.andps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.andq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.andq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.andq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.andq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.andq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.andq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.andq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "andq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.andq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.andw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.andw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.andw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.andw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.andw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.andw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.andw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "andw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.andw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "blendpd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.blendpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "blendpd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.blendpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "blendps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.blendps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "blendps", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.blendps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "blendvpd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::_Xmm0], emit: |o, w| w.blendvpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<_Xmm0>::get(o, 2)) },
    Form { name: "blendvpd", kinds: &[Kind::Xmm, Kind::Memory, Kind::_Xmm0], emit: |o, w| w.blendvpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<_Xmm0>::get(o, 2)) },
    Form { name: "blendvps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::_Xmm0], emit: |o, w| w.blendvps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<_Xmm0>::get(o, 2)) },
    Form { name: "blendvps", kinds: &[Kind::Xmm, Kind::Memory, Kind::_Xmm0], emit: |o, w| w.blendvps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<_Xmm0>::get(o, 2)) },
    Form { name: "bsfl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.bsfl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "bsfl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.bsfl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "bsfq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.bsfq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "bsfq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.bsfq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "bsfw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.bsfw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "bsfw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.bsfw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "bsrl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.bsrl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "bsrl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.bsrl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "bsrq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.bsrq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "bsrq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.bsrq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "bsrw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.bsrw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "bsrw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.bsrw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "bswap", kinds: &[Kind::Gpr32], emit: |o, w| w.bswap(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "bswap", kinds: &[Kind::Gpr64], emit: |o, w| w.bswap(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "btcl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.btcl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btcl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.btcl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btcl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.btcl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btcl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btcl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btcq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.btcq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btcq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.btcq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btcq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.btcq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btcq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btcq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btcw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.btcw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btcw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.btcw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btcw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.btcw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btcw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btcw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.btl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.btl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.btl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.btq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.btq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.btq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btrl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.btrl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btrl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.btrl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btrl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.btrl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btrl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btrl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btrq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.btrq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btrq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.btrq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btrq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.btrq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btrq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btrq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btrw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.btrw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btrw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.btrw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btrw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.btrw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btrw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btrw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btsl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.btsl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btsl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.btsl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "btsl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.btsl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btsl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btsl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btsq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.btsq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btsq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.btsq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "btsq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.btsq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btsq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btsq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btsw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.btsw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btsw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.btsw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btsw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.btsw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btsw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btsw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.btw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.btw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "btw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.btw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "btw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.btw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "callq", kinds: &[Kind::i32], emit: |o, w| w.callq(Arg::<i32>::get(o, 0)) },
    Form { name: "callq", kinds: &[Kind::Gpr64], emit: |o, w| w.callq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "callq", kinds: &[Kind::Memory], emit: |o, w| w.callq(Arg::<Memory>::get(o, 0)) },
    Form { name: "cbtw", kinds: &[], emit: |o, w| w.cbtw() },
    Form { name: "clc", kinds: &[], emit: |o, w| w.clc() },
    Form { name: "cld", kinds: &[], emit: |o, w| w.cld() },
    Form { name: "cli", kinds: &[], emit: |o, w| w.cli() },
    Form { name: "cltd", kinds: &[], emit: |o, w| w.cltd() },
    Form { name: "cltq", kinds: &[], emit: |o, w| w.cltq() },
    Form { name: "clts", kinds: &[], emit: |o, w| w.clts() },
    Form { name: "cmc", kinds: &[], emit: |o, w| w.cmc() },
    Form { name: "cmpb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.cmpb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "cmpb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.cmpb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cmpb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.cmpb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "cmpb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.cmpb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.cmpb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.cmpb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.cmpl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.cmpl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.cmpl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.cmpl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.cmpl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.cmpl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.cmpl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "cmpl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.cmpl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "cmppd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.cmppd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmppd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.cmppd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.cmpps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpps", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.cmpps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.cmpq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.cmpq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.cmpq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.cmpq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.cmpq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.cmpq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.cmpq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "cmpq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.cmpq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "cmpsd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.cmpsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpsd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.cmpsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpsl", kinds: &[], emit: |o, w| w.cmpsl() },
    Form { name: "cmpss", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.cmpss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpss", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.cmpss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "cmpw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.cmpw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.cmpw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.cmpw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.cmpw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.cmpw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.cmpw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.cmpw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "cmpw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.cmpw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "cmpxchgb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.cmpxchgb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "cmpxchgb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.cmpxchgb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "cmpxchgl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.cmpxchgl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "cmpxchgl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.cmpxchgl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "cmpxchgq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.cmpxchgq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "cmpxchgq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.cmpxchgq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "cmpxchgw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.cmpxchgw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "cmpxchgw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.cmpxchgw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "comisd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.comisd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "comisd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.comisd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "comiss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.comiss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "comiss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.comiss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cpuid", kinds: &[], emit: |o, w| w.cpuid() },
    Form { name: "cqto", kinds: &[], emit: |o, w| w.cqto() },
    Form { name: "crc32b", kinds: &[Kind::Gpr32, Kind::Gpr8], emit: |o, w| w.crc32b(Arg::<Gpr32>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "crc32b", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.crc32b(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "crc32b", kinds: &[Kind::Gpr64, Kind::Gpr8], emit: |o, w| w.crc32b(Arg::<Gpr64>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "crc32b", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.crc32b(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "crc32l", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.crc32l(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "crc32l", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.crc32l(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "crc32q", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.crc32q(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "crc32q", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.crc32q(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "crc32w", kinds: &[Kind::Gpr32, Kind::Gpr16], emit: |o, w| w.crc32w(Arg::<Gpr32>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "crc32w", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.crc32w(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtdq2pd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtdq2pd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtdq2pd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtdq2pd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtdq2ps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtdq2ps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtdq2ps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtdq2ps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtpd2dq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtpd2dq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtpd2dq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtpd2dq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtpd2ps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtpd2ps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtpd2ps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtpd2ps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtps2dq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtps2dq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtps2dq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtps2dq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtps2pd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtps2pd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtps2pd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtps2pd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsd2si", kinds: &[Kind::Gpr32, Kind::Xmm], emit: |o, w| w.cvtsd2si(Arg::<Gpr32>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtsd2si", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.cvtsd2si(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsd2si", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.cvtsd2si(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtsd2si", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.cvtsd2si(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsd2ss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtsd2ss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtsd2ss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtsd2ss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsi2sdl", kinds: &[Kind::Xmm, Kind::Gpr32], emit: |o, w| w.cvtsi2sdl(Arg::<Xmm>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "cvtsi2sdl", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtsi2sdl(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsi2sdq", kinds: &[Kind::Xmm, Kind::Gpr64], emit: |o, w| w.cvtsi2sdq(Arg::<Xmm>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "cvtsi2sdq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtsi2sdq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsi2ssl", kinds: &[Kind::Xmm, Kind::Gpr32], emit: |o, w| w.cvtsi2ssl(Arg::<Xmm>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "cvtsi2ssl", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtsi2ssl(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtsi2ssq", kinds: &[Kind::Xmm, Kind::Gpr64], emit: |o, w| w.cvtsi2ssq(Arg::<Xmm>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "cvtsi2ssq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtsi2ssq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtss2sd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvtss2sd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtss2sd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvtss2sd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtss2si", kinds: &[Kind::Gpr32, Kind::Xmm], emit: |o, w| w.cvtss2si(Arg::<Gpr32>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtss2si", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.cvtss2si(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvtss2si", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.cvtss2si(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvtss2si", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.cvtss2si(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvttpd2dq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvttpd2dq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvttpd2dq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvttpd2dq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvttps2dq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.cvttps2dq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvttps2dq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.cvttps2dq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvttsd2si", kinds: &[Kind::Gpr32, Kind::Xmm], emit: |o, w| w.cvttsd2si(Arg::<Gpr32>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvttsd2si", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.cvttsd2si(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvttsd2si", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.cvttsd2si(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvttsd2si", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.cvttsd2si(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvttss2si", kinds: &[Kind::Gpr32, Kind::Xmm], emit: |o, w| w.cvttss2si(Arg::<Gpr32>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvttss2si", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.cvttss2si(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cvttss2si", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.cvttss2si(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "cvttss2si", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.cvttss2si(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "cwtd", kinds: &[], emit: |o, w| w.cwtd() },
    Form { name: "cwtl", kinds: &[], emit: |o, w| w.cwtl() },
    Form { name: "decb", kinds: &[Kind::Gpr8], emit: |o, w| w.decb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "decb", kinds: &[Kind::Memory], emit: |o, w| w.decb(Arg::<Memory>::get(o, 0)) },
    Form { name: "decl", kinds: &[Kind::Gpr32], emit: |o, w| w.decl(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "decl", kinds: &[Kind::Memory], emit: |o, w| w.decl(Arg::<Memory>::get(o, 0)) },
    Form { name: "decq", kinds: &[Kind::Gpr64], emit: |o, w| w.decq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "decq", kinds: &[Kind::Memory], emit: |o, w| w.decq(Arg::<Memory>::get(o, 0)) },
    Form { name: "decw", kinds: &[Kind::Gpr16], emit: |o, w| w.decw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "decw", kinds: &[Kind::Memory], emit: |o, w| w.decw(Arg::<Memory>::get(o, 0)) },
    Form { name: "divb", kinds: &[Kind::Gpr8], emit: |o, w| w.divb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "divb", kinds: &[Kind::Memory], emit: |o, w| w.divb(Arg::<Memory>::get(o, 0)) },
    Form { name: "divl", kinds: &[Kind::Gpr32], emit: |o, w| w.divl(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "divl", kinds: &[Kind::Memory], emit: |o, w| w.divl(Arg::<Memory>::get(o, 0)) },
    Form { name: "divpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.divpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "divpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.divpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "divps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.divps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "divps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.divps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "divq", kinds: &[Kind::Gpr64], emit: |o, w| w.divq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "divq", kinds: &[Kind::Memory], emit: |o, w| w.divq(Arg::<Memory>::get(o, 0)) },
    Form { name: "divsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.divsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "divsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.divsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "divss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.divss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "divss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.divss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "divw", kinds: &[Kind::Gpr16], emit: |o, w| w.divw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "divw", kinds: &[Kind::Memory], emit: |o, w| w.divw(Arg::<Memory>::get(o, 0)) },
    Form { name: "dppd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.dppd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "dppd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.dppd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "dpps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.dpps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "dpps", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.dpps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "emms", kinds: &[], emit: |o, w| w.emms() },
    Form { name: "extractps", kinds: &[Kind::Gpr64, Kind::Xmm, Kind::i8], emit: |o, w| w.extractps(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "extractps", kinds: &[Kind::Memory, Kind::Xmm, Kind::i8], emit: |o, w| w.extractps(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "hlt", kinds: &[], emit: |o, w| w.hlt() },
    Form { name: "idivb", kinds: &[Kind::Gpr8], emit: |o, w| w.idivb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "idivb", kinds: &[Kind::Memory], emit: |o, w| w.idivb(Arg::<Memory>::get(o, 0)) },
    Form { name: "idivl", kinds: &[Kind::Gpr32], emit: |o, w| w.idivl(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "idivl", kinds: &[Kind::Memory], emit: |o, w| w.idivl(Arg::<Memory>::get(o, 0)) },
    Form { name: "idivq", kinds: &[Kind::Gpr64], emit: |o, w| w.idivq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "idivq", kinds: &[Kind::Memory], emit: |o, w| w.idivq(Arg::<Memory>::get(o, 0)) },
    Form { name: "idivw", kinds: &[Kind::Gpr16], emit: |o, w| w.idivw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "idivw", kinds: &[Kind::Memory], emit: |o, w| w.idivw(Arg::<Memory>::get(o, 0)) },
    Form { name: "imulb", kinds: &[Kind::Gpr8], emit: |o, w| w.imulb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "imulb", kinds: &[Kind::Memory], emit: |o, w| w.imulb(Arg::<Memory>::get(o, 0)) },
    Form { name: "imull", kinds: &[Kind::Gpr32, Kind::Gpr32, Kind::i8], emit: |o, w| w.imull(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "imull", kinds: &[Kind::Gpr32, Kind::Memory, Kind::i8], emit: |o, w| w.imull(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "imull", kinds: &[Kind::Gpr32, Kind::Gpr32, Kind::i32], emit: |o, w| w.imull(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i32>::get(o, 2)) },
    Form { name: "imull", kinds: &[Kind::Gpr32, Kind::Memory, Kind::i32], emit: |o, w| w.imull(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i32>::get(o, 2)) },
    Form { name: "imull1", kinds: &[Kind::Gpr32], emit: |o, w| w.imull1(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "imull1", kinds: &[Kind::Memory], emit: |o, w| w.imull1(Arg::<Memory>::get(o, 0)) },
    Form { name: "imull2", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.imull2(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "imull2", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.imull2(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "imulq", kinds: &[Kind::Gpr64, Kind::Gpr64, Kind::i8], emit: |o, w| w.imulq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "imulq", kinds: &[Kind::Gpr64, Kind::Memory, Kind::i8], emit: |o, w| w.imulq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "imulq", kinds: &[Kind::Gpr64, Kind::Gpr64, Kind::i32], emit: |o, w| w.imulq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<i32>::get(o, 2)) },
    Form { name: "imulq", kinds: &[Kind::Gpr64, Kind::Memory, Kind::i32], emit: |o, w| w.imulq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i32>::get(o, 2)) },
    Form { name: "imulq1", kinds: &[Kind::Gpr64], emit: |o, w| w.imulq1(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "imulq1", kinds: &[Kind::Memory], emit: |o, w| w.imulq1(Arg::<Memory>::get(o, 0)) },
    Form { name: "imulq2", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.imulq2(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "imulq2", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.imulq2(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "imulw", kinds: &[Kind::Gpr16, Kind::Gpr16, Kind::i8], emit: |o, w| w.imulw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "imulw", kinds: &[Kind::Gpr16, Kind::Memory, Kind::i8], emit: |o, w| w.imulw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "imulw", kinds: &[Kind::Gpr16, Kind::Gpr16, Kind::i16], emit: |o, w| w.imulw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<i16>::get(o, 2)) },
    Form { name: "imulw", kinds: &[Kind::Gpr16, Kind::Memory, Kind::i16], emit: |o, w| w.imulw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i16>::get(o, 2)) },
    Form { name: "imulw1", kinds: &[Kind::Gpr16], emit: |o, w| w.imulw1(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "imulw1", kinds: &[Kind::Memory], emit: |o, w| w.imulw1(Arg::<Memory>::get(o, 0)) },
    Form { name: "imulw2", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.imulw2(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "imulw2", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.imulw2(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "inb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.inb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "inb", kinds: &[Kind::_Al, Kind::_Dx], emit: |o, w| w.inb(Arg::<_Al>::get(o, 0), Arg::<_Dx>::get(o, 1)) },
    Form { name: "incb", kinds: &[Kind::Gpr8], emit: |o, w| w.incb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "incb", kinds: &[Kind::Memory], emit: |o, w| w.incb(Arg::<Memory>::get(o, 0)) },
    Form { name: "incl", kinds: &[Kind::Gpr32], emit: |o, w| w.incl(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "incl", kinds: &[Kind::Memory], emit: |o, w| w.incl(Arg::<Memory>::get(o, 0)) },
    Form { name: "incq", kinds: &[Kind::Gpr64], emit: |o, w| w.incq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "incq", kinds: &[Kind::Memory], emit: |o, w| w.incq(Arg::<Memory>::get(o, 0)) },
    Form { name: "incw", kinds: &[Kind::Gpr16], emit: |o, w| w.incw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "incw", kinds: &[Kind::Memory], emit: |o, w| w.incw(Arg::<Memory>::get(o, 0)) },
    Form { name: "inl", kinds: &[Kind::_Eax, Kind::i8], emit: |o, w| w.inl(Arg::<_Eax>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "inl", kinds: &[Kind::_Eax, Kind::_Dx], emit: |o, w| w.inl(Arg::<_Eax>::get(o, 0), Arg::<_Dx>::get(o, 1)) },
    Form { name: "insertps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.insertps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "insertps", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.insertps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "int", kinds: &[Kind::i8], emit: |o, w| w.int(Arg::<i8>::get(o, 0)) },
    Form { name: "int", kinds: &[Kind::_3], emit: |o, w| w.int(Arg::<_3>::get(o, 0)) },
    Form { name: "invd", kinds: &[], emit: |o, w| w.invd() },
    Form { name: "invlpg", kinds: &[Kind::Memory], emit: |o, w| w.invlpg(Arg::<Memory>::get(o, 0)) },
    Form { name: "inw", kinds: &[Kind::_Ax, Kind::i8], emit: |o, w| w.inw(Arg::<_Ax>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "inw", kinds: &[Kind::_Ax, Kind::_Dx], emit: |o, w| w.inw(Arg::<_Ax>::get(o, 0), Arg::<_Dx>::get(o, 1)) },
    Form { name: "iretl", kinds: &[], emit: |o, w| w.iretl() },
    Form { name: "iretq", kinds: &[], emit: |o, w| w.iretq() },
    Form { name: "iretw", kinds: &[], emit: |o, w| w.iretw() },
    Form { name: "ja", kinds: &[Kind::i8], emit: |o, w| w.ja(Arg::<i8>::get(o, 0)) },
    Form { name: "ja", kinds: &[Kind::i32], emit: |o, w| w.ja(Arg::<i32>::get(o, 0)) },
    Form { name: "jae", kinds: &[Kind::i8], emit: |o, w| w.jae(Arg::<i8>::get(o, 0)) },
    Form { name: "jae", kinds: &[Kind::i32], emit: |o, w| w.jae(Arg::<i32>::get(o, 0)) },
    Form { name: "jb", kinds: &[Kind::i8], emit: |o, w| w.jb(Arg::<i8>::get(o, 0)) },
    Form { name: "jb", kinds: &[Kind::i32], emit: |o, w| w.jb(Arg::<i32>::get(o, 0)) },
    Form { name: "jbe", kinds: &[Kind::i8], emit: |o, w| w.jbe(Arg::<i8>::get(o, 0)) },
    Form { name: "jbe", kinds: &[Kind::i32], emit: |o, w| w.jbe(Arg::<i32>::get(o, 0)) },
    Form { name: "jc", kinds: &[Kind::i8], emit: |o, w| w.jc(Arg::<i8>::get(o, 0)) },
    Form { name: "jc", kinds: &[Kind::i32], emit: |o, w| w.jc(Arg::<i32>::get(o, 0)) },
    Form { name: "je", kinds: &[Kind::i8], emit: |o, w| w.je(Arg::<i8>::get(o, 0)) },
    Form { name: "je", kinds: &[Kind::i32], emit: |o, w| w.je(Arg::<i32>::get(o, 0)) },
    Form { name: "jecxz", kinds: &[Kind::i8], emit: |o, w| w.jecxz(Arg::<i8>::get(o, 0)) },
    Form { name: "jg", kinds: &[Kind::i8], emit: |o, w| w.jg(Arg::<i8>::get(o, 0)) },
    Form { name: "jg", kinds: &[Kind::i32], emit: |o, w| w.jg(Arg::<i32>::get(o, 0)) },
    Form { name: "jge", kinds: &[Kind::i8], emit: |o, w| w.jge(Arg::<i8>::get(o, 0)) },
    Form { name: "jge", kinds: &[Kind::i32], emit: |o, w| w.jge(Arg::<i32>::get(o, 0)) },
    Form { name: "jl", kinds: &[Kind::i8], emit: |o, w| w.jl(Arg::<i8>::get(o, 0)) },
    Form { name: "jl", kinds: &[Kind::i32], emit: |o, w| w.jl(Arg::<i32>::get(o, 0)) },
    Form { name: "jle", kinds: &[Kind::i8], emit: |o, w| w.jle(Arg::<i8>::get(o, 0)) },
    Form { name: "jle", kinds: &[Kind::i32], emit: |o, w| w.jle(Arg::<i32>::get(o, 0)) },
    Form { name: "jmpq", kinds: &[Kind::i8], emit: |o, w| w.jmpq(Arg::<i8>::get(o, 0)) },
    Form { name: "jmpq", kinds: &[Kind::i32], emit: |o, w| w.jmpq(Arg::<i32>::get(o, 0)) },
    Form { name: "jmpq", kinds: &[Kind::Gpr64], emit: |o, w| w.jmpq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "jmpq", kinds: &[Kind::Memory], emit: |o, w| w.jmpq(Arg::<Memory>::get(o, 0)) },
    Form { name: "jna", kinds: &[Kind::i8], emit: |o, w| w.jna(Arg::<i8>::get(o, 0)) },
    Form { name: "jna", kinds: &[Kind::i32], emit: |o, w| w.jna(Arg::<i32>::get(o, 0)) },
    Form { name: "jnae", kinds: &[Kind::i8], emit: |o, w| w.jnae(Arg::<i8>::get(o, 0)) },
    Form { name: "jnae", kinds: &[Kind::i32], emit: |o, w| w.jnae(Arg::<i32>::get(o, 0)) },
    Form { name: "jnb", kinds: &[Kind::i8], emit: |o, w| w.jnb(Arg::<i8>::get(o, 0)) },
    Form { name: "jnb", kinds: &[Kind::i32], emit: |o, w| w.jnb(Arg::<i32>::get(o, 0)) },
    Form { name: "jnbe", kinds: &[Kind::i8], emit: |o, w| w.jnbe(Arg::<i8>::get(o, 0)) },
    Form { name: "jnbe", kinds: &[Kind::i32], emit: |o, w| w.jnbe(Arg::<i32>::get(o, 0)) },
    Form { name: "jnc", kinds: &[Kind::i8], emit: |o, w| w.jnc(Arg::<i8>::get(o, 0)) },
    Form { name: "jnc", kinds: &[Kind::i32], emit: |o, w| w.jnc(Arg::<i32>::get(o, 0)) },
    Form { name: "jne", kinds: &[Kind::i8], emit: |o, w| w.jne(Arg::<i8>::get(o, 0)) },
    Form { name: "jne", kinds: &[Kind::i32], emit: |o, w| w.jne(Arg::<i32>::get(o, 0)) },
    Form { name: "jng", kinds: &[Kind::i8], emit: |o, w| w.jng(Arg::<i8>::get(o, 0)) },
    Form { name: "jng", kinds: &[Kind::i32], emit: |o, w| w.jng(Arg::<i32>::get(o, 0)) },
    Form { name: "jnge", kinds: &[Kind::i8], emit: |o, w| w.jnge(Arg::<i8>::get(o, 0)) },
    Form { name: "jnge", kinds: &[Kind::i32], emit: |o, w| w.jnge(Arg::<i32>::get(o, 0)) },
    Form { name: "jnl", kinds: &[Kind::i8], emit: |o, w| w.jnl(Arg::<i8>::get(o, 0)) },
    Form { name: "jnl", kinds: &[Kind::i32], emit: |o, w| w.jnl(Arg::<i32>::get(o, 0)) },
    Form { name: "jnle", kinds: &[Kind::i8], emit: |o, w| w.jnle(Arg::<i8>::get(o, 0)) },
    Form { name: "jnle", kinds: &[Kind::i32], emit: |o, w| w.jnle(Arg::<i32>::get(o, 0)) },
    Form { name: "jno", kinds: &[Kind::i8], emit: |o, w| w.jno(Arg::<i8>::get(o, 0)) },
    Form { name: "jno", kinds: &[Kind::i32], emit: |o, w| w.jno(Arg::<i32>::get(o, 0)) },
    Form { name: "jnp", kinds: &[Kind::i8], emit: |o, w| w.jnp(Arg::<i8>::get(o, 0)) },
    Form { name: "jnp", kinds: &[Kind::i32], emit: |o, w| w.jnp(Arg::<i32>::get(o, 0)) },
    Form { name: "jns", kinds: &[Kind::i8], emit: |o, w| w.jns(Arg::<i8>::get(o, 0)) },
    Form { name: "jns", kinds: &[Kind::i32], emit: |o, w| w.jns(Arg::<i32>::get(o, 0)) },
    Form { name: "jnz", kinds: &[Kind::i8], emit: |o, w| w.jnz(Arg::<i8>::get(o, 0)) },
    Form { name: "jnz", kinds: &[Kind::i32], emit: |o, w| w.jnz(Arg::<i32>::get(o, 0)) },
    Form { name: "jo", kinds: &[Kind::i8], emit: |o, w| w.jo(Arg::<i8>::get(o, 0)) },
    Form { name: "jo", kinds: &[Kind::i32], emit: |o, w| w.jo(Arg::<i32>::get(o, 0)) },
    Form { name: "jp", kinds: &[Kind::i8], emit: |o, w| w.jp(Arg::<i8>::get(o, 0)) },
    Form { name: "jp", kinds: &[Kind::i32], emit: |o, w| w.jp(Arg::<i32>::get(o, 0)) },
    Form { name: "jpe", kinds: &[Kind::i8], emit: |o, w| w.jpe(Arg::<i8>::get(o, 0)) },
    Form { name: "jpe", kinds: &[Kind::i32], emit: |o, w| w.jpe(Arg::<i32>::get(o, 0)) },
    Form { name: "jpo", kinds: &[Kind::i8], emit: |o, w| w.jpo(Arg::<i8>::get(o, 0)) },
    Form { name: "jpo", kinds: &[Kind::i32], emit: |o, w| w.jpo(Arg::<i32>::get(o, 0)) },
    Form { name: "jrcxz", kinds: &[Kind::i8], emit: |o, w| w.jrcxz(Arg::<i8>::get(o, 0)) },
    Form { name: "js", kinds: &[Kind::i8], emit: |o, w| w.js(Arg::<i8>::get(o, 0)) },
    Form { name: "js", kinds: &[Kind::i32], emit: |o, w| w.js(Arg::<i32>::get(o, 0)) },
    Form { name: "jz", kinds: &[Kind::i8], emit: |o, w| w.jz(Arg::<i8>::get(o, 0)) },
    Form { name: "jz", kinds: &[Kind::i32], emit: |o, w| w.jz(Arg::<i32>::get(o, 0)) },
    Form { name: "ldmxcsr", kinds: &[Kind::Memory], emit: |o, w| w.ldmxcsr(Arg::<Memory>::get(o, 0)) },
    Form { name: "leal", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.leal(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "leaq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.leaq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "leaveq", kinds: &[], emit: |o, w| w.leaveq() },
    Form { name: "leavew", kinds: &[], emit: |o, w| w.leavew() },
    Form { name: "leaw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.leaw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "lfence", kinds: &[], emit: |o, w| w.lfence() },
    Form { name: "lmsw", kinds: &[Kind::Gpr16], emit: |o, w| w.lmsw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "lmsw", kinds: &[Kind::Memory], emit: |o, w| w.lmsw(Arg::<Memory>::get(o, 0)) },
    Form { name: "lock", kinds: &[], emit: |o, w| w.lock() },
    Form { name: "maskmovdqu", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.maskmovdqu(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "maxpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.maxpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "maxpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.maxpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "maxps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.maxps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "maxps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.maxps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "maxsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.maxsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "maxsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.maxsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "maxss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.maxss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "maxss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.maxss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "mfence", kinds: &[], emit: |o, w| w.mfence() },
    Form { name: "minpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.minpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "minpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.minpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "minps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.minps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "minps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.minps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "minsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.minsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "minsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.minsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "minss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.minss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "minss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.minss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movapd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movapd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movapd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movapd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movapd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movapd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movaps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movaps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movaps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movaps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movaps", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movaps(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.movb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "movb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.movb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.movb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.movb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.movb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "movd", kinds: &[Kind::Gpr32, Kind::Xmm], emit: |o, w| w.movd(Arg::<Gpr32>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movd", kinds: &[Kind::Xmm, Kind::Gpr32], emit: |o, w| w.movd(Arg::<Xmm>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "movd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movdqa", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movdqa(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movdqa", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movdqa(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movdqa", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movdqa(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movdqu", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movdqu(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movdqu", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movdqu(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movdqu", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movdqu(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movhlps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movhlps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movhpd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movhpd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movhpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movhpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movhps", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movhps(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movhps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movhps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.movl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "movl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.movl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "movl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.movl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.movl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "movl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.movl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "movlhps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movlhps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movlpd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movlpd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movlpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movlpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movlps", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movlps(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movlps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movlps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movmskpd", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.movmskpd(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movmskps", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.movmskps(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movntdq", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movntdq(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movntdqa", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movntdqa(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movnti", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.movnti(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "movnti", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.movnti(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "movntpd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movntpd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movntps", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movntps(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Gpr64, Kind::i64], emit: |o, w| w.movq(Arg::<Gpr64>::get(o, 0), Arg::<i64>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.movq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.movq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.movq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.movq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.movq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.movq(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movq(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Xmm, Kind::Gpr64], emit: |o, w| w.movq(Arg::<Xmm>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movsbl", kinds: &[Kind::Gpr32, Kind::Gpr8], emit: |o, w| w.movsbl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movsbl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.movsbl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movsbq", kinds: &[Kind::Gpr64, Kind::Gpr8], emit: |o, w| w.movsbq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movsbq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.movsbq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movsbw", kinds: &[Kind::Gpr16, Kind::Gpr8], emit: |o, w| w.movsbw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movsbw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.movsbw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movsd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movsd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movsl", kinds: &[], emit: |o, w| w.movsl() },
    Form { name: "movslq", kinds: &[Kind::Gpr64, Kind::Gpr32], emit: |o, w| w.movslq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "movslq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.movslq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movss", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movss(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movswl", kinds: &[Kind::Gpr32, Kind::Gpr16], emit: |o, w| w.movswl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "movswl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.movswl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movswq", kinds: &[Kind::Gpr64, Kind::Gpr16], emit: |o, w| w.movswq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "movswq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.movswq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movupd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movupd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movupd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movupd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movupd", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movupd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movups", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.movups(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movups", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.movups(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movups", kinds: &[Kind::Memory, Kind::Xmm], emit: |o, w| w.movups(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "movw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.movw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "movw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.movw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "movw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.movw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.movw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "movw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.movw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "movzbl", kinds: &[Kind::Gpr32, Kind::Gpr8], emit: |o, w| w.movzbl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movzbl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.movzbl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movzbq", kinds: &[Kind::Gpr64, Kind::Gpr8], emit: |o, w| w.movzbq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movzbq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.movzbq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movzbw", kinds: &[Kind::Gpr16, Kind::Gpr8], emit: |o, w| w.movzbw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "movzbw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.movzbw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movzwl", kinds: &[Kind::Gpr32, Kind::Gpr16], emit: |o, w| w.movzwl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "movzwl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.movzwl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "movzwq", kinds: &[Kind::Gpr64, Kind::Gpr16], emit: |o, w| w.movzwq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "movzwq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.movzwq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "mpsadbw", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.mpsadbw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "mpsadbw", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.mpsadbw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "mulb", kinds: &[Kind::Gpr8], emit: |o, w| w.mulb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "mulb", kinds: &[Kind::Memory], emit: |o, w| w.mulb(Arg::<Memory>::get(o, 0)) },
    Form { name: "mull", kinds: &[Kind::Gpr32], emit: |o, w| w.mull(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "mull", kinds: &[Kind::Memory], emit: |o, w| w.mull(Arg::<Memory>::get(o, 0)) },
    Form { name: "mulpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.mulpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "mulpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.mulpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "mulps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.mulps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "mulps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.mulps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "mulq", kinds: &[Kind::Gpr64], emit: |o, w| w.mulq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "mulq", kinds: &[Kind::Memory], emit: |o, w| w.mulq(Arg::<Memory>::get(o, 0)) },
    Form { name: "mulsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.mulsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "mulsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.mulsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "mulss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.mulss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "mulss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.mulss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "mulw", kinds: &[Kind::Gpr16], emit: |o, w| w.mulw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "mulw", kinds: &[Kind::Memory], emit: |o, w| w.mulw(Arg::<Memory>::get(o, 0)) },
    Form { name: "negb", kinds: &[Kind::Gpr8], emit: |o, w| w.negb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "negb", kinds: &[Kind::Memory], emit: |o, w| w.negb(Arg::<Memory>::get(o, 0)) },
    Form { name: "negl", kinds: &[Kind::Gpr32], emit: |o, w| w.negl(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "negl", kinds: &[Kind::Memory], emit: |o, w| w.negl(Arg::<Memory>::get(o, 0)) },
    Form { name: "negq", kinds: &[Kind::Gpr64], emit: |o, w| w.negq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "negq", kinds: &[Kind::Memory], emit: |o, w| w.negq(Arg::<Memory>::get(o, 0)) },
    Form { name: "negw", kinds: &[Kind::Gpr16], emit: |o, w| w.negw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "negw", kinds: &[Kind::Memory], emit: |o, w| w.negw(Arg::<Memory>::get(o, 0)) },
    Form { name: "nop", kinds: &[], emit: |o, w| w.nop() },
    Form { name: "notb", kinds: &[Kind::Gpr8], emit: |o, w| w.notb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "notb", kinds: &[Kind::Memory], emit: |o, w| w.notb(Arg::<Memory>::get(o, 0)) },
    Form { name: "notl", kinds: &[Kind::Gpr32], emit: |o, w| w.notl(Arg::<Gpr32>::get(o, 0)) },
    Form { name: "notl", kinds: &[Kind::Memory], emit: |o, w| w.notl(Arg::<Memory>::get(o, 0)) },
    Form { name: "notq", kinds: &[Kind::Gpr64], emit: |o, w| w.notq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "notq", kinds: &[Kind::Memory], emit: |o, w| w.notq(Arg::<Memory>::get(o, 0)) },
    Form { name: "notw", kinds: &[Kind::Gpr16], emit: |o, w| w.notw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "notw", kinds: &[Kind::Memory], emit: |o, w| w.notw(Arg::<Memory>::get(o, 0)) },
    Form { name: "orb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.orb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "orb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.orb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "orb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.orb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "orb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.orb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.orb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.orb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.orl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.orl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.orl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.orl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.orl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.orl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.orl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "orl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.orl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "orpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.orpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "orpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.orpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "orps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.orps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "orps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.orps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.orq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.orq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.orq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.orq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.orq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.orq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.orq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "orq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.orq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.orw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.orw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.orw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.orw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.orw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.orw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.orw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "orw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.orw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "outb", kinds: &[Kind::i8, Kind::_Al], emit: |o, w| w.outb(Arg::<i8>::get(o, 0), Arg::<_Al>::get(o, 1)) },
    Form { name: "outb", kinds: &[Kind::_Dx, Kind::_Al], emit: |o, w| w.outb(Arg::<_Dx>::get(o, 0), Arg::<_Al>::get(o, 1)) },
    Form { name: "outl", kinds: &[Kind::i8, Kind::_Eax], emit: |o, w| w.outl(Arg::<i8>::get(o, 0), Arg::<_Eax>::get(o, 1)) },
    Form { name: "outl", kinds: &[Kind::_Dx, Kind::_Eax], emit: |o, w| w.outl(Arg::<_Dx>::get(o, 0), Arg::<_Eax>::get(o, 1)) },
    Form { name: "outw", kinds: &[Kind::i8, Kind::_Ax], emit: |o, w| w.outw(Arg::<i8>::get(o, 0), Arg::<_Ax>::get(o, 1)) },
    Form { name: "outw", kinds: &[Kind::_Dx, Kind::_Ax], emit: |o, w| w.outw(Arg::<_Dx>::get(o, 0), Arg::<_Ax>::get(o, 1)) },
    Form { name: "packssdw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.packssdw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "packssdw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.packssdw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "packsswb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.packsswb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "packsswb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.packsswb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "packusdw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.packusdw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "packusdw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.packusdw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "packuswb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.packuswb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "packuswb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.packuswb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddsb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddsb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddsb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddsb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddsw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddsw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddsw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddsw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddusb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddusb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddusb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddusb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddusw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddusw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddusw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddusw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "paddw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.paddw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "paddw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.paddw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pand", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pand(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pand", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pand(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pandn", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pandn(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pandn", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pandn(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pause", kinds: &[], emit: |o, w| w.pause() },
    Form { name: "pavgb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pavgb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pavgb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pavgb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pavgw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pavgw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pavgw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pavgw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pblendvb", kinds: &[Kind::Xmm, Kind::Xmm, Kind::_Xmm0], emit: |o, w| w.pblendvb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<_Xmm0>::get(o, 2)) },
    Form { name: "pblendvb", kinds: &[Kind::Xmm, Kind::Memory, Kind::_Xmm0], emit: |o, w| w.pblendvb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<_Xmm0>::get(o, 2)) },
    Form { name: "pblendw", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pblendw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pblendw", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pblendw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpeqb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpeqb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpeqb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpeqb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpeqd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpeqd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpeqd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpeqd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpeqq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpeqq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpeqq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpeqq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpeqw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpeqw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpeqw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpeqw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpestri", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pcmpestri(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpestri", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pcmpestri(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpestrm", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pcmpestrm(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpestrm", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pcmpestrm(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpgtb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpgtb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpgtb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpgtb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpgtd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpgtd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpgtd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpgtd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpgtq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpgtq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpgtq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpgtq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpgtw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pcmpgtw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pcmpgtw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pcmpgtw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pcmpistri", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pcmpistri(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpistri", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pcmpistri(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpistrm", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pcmpistrm(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pcmpistrm", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pcmpistrm(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrb", kinds: &[Kind::Gpr64, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrb(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrb", kinds: &[Kind::Memory, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrb(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrd", kinds: &[Kind::Gpr32, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrd(Arg::<Gpr32>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrd", kinds: &[Kind::Memory, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrd(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrq", kinds: &[Kind::Gpr64, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrq(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrq", kinds: &[Kind::Memory, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrq(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrw", kinds: &[Kind::Gpr64, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrw(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pextrw", kinds: &[Kind::Memory, Kind::Xmm, Kind::i8], emit: |o, w| w.pextrw(Arg::<Memory>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "phminposuw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.phminposuw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "phminposuw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.phminposuw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pinsrb", kinds: &[Kind::Xmm, Kind::Gpr32, Kind::i8], emit: |o, w| w.pinsrb(Arg::<Xmm>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pinsrb", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pinsrb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pinsrd", kinds: &[Kind::Xmm, Kind::Gpr32, Kind::i8], emit: |o, w| w.pinsrd(Arg::<Xmm>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pinsrd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pinsrd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pinsrw", kinds: &[Kind::Xmm, Kind::Gpr32, Kind::i8], emit: |o, w| w.pinsrw(Arg::<Xmm>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pinsrw", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pinsrw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pmaddwd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaddwd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaddwd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaddwd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmaxsb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaxsb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaxsb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaxsb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmaxsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaxsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaxsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaxsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmaxsw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaxsw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaxsw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaxsw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmaxub", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaxub(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaxub", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaxub(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmaxud", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaxud(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaxud", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaxud(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmaxuw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmaxuw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmaxuw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmaxuw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pminsb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pminsb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pminsb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pminsb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pminsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pminsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pminsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pminsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pminsw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pminsw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pminsw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pminsw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pminub", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pminub(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pminub", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pminub(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pminud", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pminud(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pminud", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pminud(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pminuw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pminuw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pminuw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pminuw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovmskb", kinds: &[Kind::Gpr64, Kind::Xmm], emit: |o, w| w.pmovmskb(Arg::<Gpr64>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxbd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovsxbd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxbd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovsxbd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovsxbq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovsxbq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxbq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovsxbq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovsxbw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovsxbw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxbw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovsxbw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovsxdq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovsxdq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxdq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovsxdq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovsxwd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovsxwd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxwd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovsxwd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovsxwq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovsxwq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovsxwq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovsxwq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovzxbd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovzxbd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovzxbd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovzxbd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovzxbq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovzxbq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovzxbq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovzxbq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovzxbw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovzxbw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovzxbw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovzxbw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovzxdq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovzxdq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovzxdq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovzxdq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovzxwd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovzxwd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovzxwd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovzxwd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmovzxwq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmovzxwq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmovzxwq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmovzxwq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmuldq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmuldq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmuldq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmuldq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmulhuw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmulhuw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmulhuw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmulhuw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmulhw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmulhw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmulhw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmulhw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmulld", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmulld(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmulld", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmulld(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmullw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmullw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmullw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmullw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pmuludq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pmuludq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pmuludq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pmuludq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "popcntl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.popcntl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "popcntl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.popcntl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "popcntq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.popcntq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "popcntq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.popcntq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "popcntw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.popcntw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "popcntw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.popcntw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "popfq", kinds: &[], emit: |o, w| w.popfq() },
    Form { name: "popfw", kinds: &[], emit: |o, w| w.popfw() },
    Form { name: "popq", kinds: &[Kind::Gpr64], emit: |o, w| w.popq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "popq", kinds: &[Kind::Memory], emit: |o, w| w.popq(Arg::<Memory>::get(o, 0)) },
    Form { name: "popw", kinds: &[Kind::Gpr16], emit: |o, w| w.popw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "popw", kinds: &[Kind::Memory], emit: |o, w| w.popw(Arg::<Memory>::get(o, 0)) },
    Form { name: "por", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.por(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "por", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.por(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psadbw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psadbw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psadbw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psadbw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pshufd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pshufd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pshufd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pshufd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pshufhw", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pshufhw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pshufhw", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pshufhw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pshuflw", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.pshuflw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pshuflw", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.pshuflw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "pslld", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.pslld(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "pslld", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pslld(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pslld", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pslld(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pslldq", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.pslldq(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psllq", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psllq(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psllq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psllq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psllq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psllq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psllw", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psllw(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psllw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psllw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psllw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psllw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psrad", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psrad(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psrad", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psrad(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psrad", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psrad(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psraw", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psraw(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psraw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psraw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psraw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psraw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psrld", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psrld(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psrld", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psrld(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psrld", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psrld(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psrldq", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psrldq(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psrlq", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psrlq(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psrlq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psrlq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psrlq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psrlq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psrlw", kinds: &[Kind::Xmm, Kind::i8], emit: |o, w| w.psrlw(Arg::<Xmm>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "psrlw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psrlw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psrlw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psrlw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubsb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubsb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubsb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubsb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubsw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubsw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubsw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubsw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubusb", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubusb(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubusb", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubusb(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubusw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubusw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubusw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubusw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "psubw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.psubw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "psubw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.psubw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "ptest", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.ptest(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "ptest", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.ptest(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpckhbw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpckhbw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpckhbw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpckhbw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpckhdq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpckhdq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpckhdq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpckhdq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpckhqdq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpckhqdq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpckhqdq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpckhqdq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpckhwd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpckhwd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpckhwd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpckhwd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpcklbw", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpcklbw(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpcklbw", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpcklbw(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpckldq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpckldq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpckldq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpckldq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpcklqdq", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpcklqdq(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpcklqdq", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpcklqdq(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "punpcklwd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.punpcklwd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "punpcklwd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.punpcklwd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "pushfq", kinds: &[], emit: |o, w| w.pushfq() },
    Form { name: "pushfw", kinds: &[], emit: |o, w| w.pushfw() },
    Form { name: "pushq", kinds: &[Kind::Gpr64], emit: |o, w| w.pushq(Arg::<Gpr64>::get(o, 0)) },
    Form { name: "pushq", kinds: &[Kind::i8], emit: |o, w| w.pushq(Arg::<i8>::get(o, 0)) },
    Form { name: "pushq", kinds: &[Kind::i16], emit: |o, w| w.pushq(Arg::<i16>::get(o, 0)) },
    Form { name: "pushq", kinds: &[Kind::i32], emit: |o, w| w.pushq(Arg::<i32>::get(o, 0)) },
    Form { name: "pushq", kinds: &[Kind::Memory], emit: |o, w| w.pushq(Arg::<Memory>::get(o, 0)) },
    Form { name: "pushw", kinds: &[Kind::Gpr16], emit: |o, w| w.pushw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "pushw", kinds: &[Kind::Memory], emit: |o, w| w.pushw(Arg::<Memory>::get(o, 0)) },
    Form { name: "pxor", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.pxor(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "pxor", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.pxor(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "rclb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.rclb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rclb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rclb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rclb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.rclb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rclb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rclb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rclb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.rclb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rclb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rclb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcll", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.rcll(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcll", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rcll(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcll", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.rcll(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcll", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rcll(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcll", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.rcll(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcll", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rcll(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rclq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.rclq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rclq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rclq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rclq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.rclq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rclq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rclq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rclq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.rclq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rclq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rclq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rclw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.rclw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rclw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rclw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rclw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.rclw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rclw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rclw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rclw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.rclw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rclw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rclw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcpps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.rcpps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "rcpps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.rcpps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "rcpss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.rcpss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "rcpss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.rcpss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "rcrb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.rcrb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rcrb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.rcrb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rcrb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.rcrb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rcrb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.rcrl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rcrl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrl", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.rcrl(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrl", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rcrl(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrl", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.rcrl(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrl", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rcrl(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.rcrq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rcrq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.rcrq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rcrq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.rcrq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rcrq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.rcrw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rcrw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rcrw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.rcrw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rcrw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rcrw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.rcrw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rcrw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rcrw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "retq", kinds: &[], emit: |o, w| w.retq() },
    Form { name: "retq1", kinds: &[Kind::i16], emit: |o, w| w.retq1(Arg::<i16>::get(o, 0)) },
    Form { name: "rolb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.rolb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rolb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rolb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rolb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.rolb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rolb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rolb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rolb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.rolb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rolb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rolb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "roll", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.roll(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "roll", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.roll(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "roll", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.roll(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "roll", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.roll(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "roll", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.roll(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "roll", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.roll(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rolq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.rolq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rolq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rolq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rolq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.rolq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rolq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rolq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rolq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.rolq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rolq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rolq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rolw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.rolw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rolw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rolw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rolw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.rolw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rolw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rolw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rolw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.rolw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rolw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rolw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.rorb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rorb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.rorb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rorb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.rorb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rorb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.rorl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rorl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorl", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.rorl(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorl", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rorl(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorl", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.rorl(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorl", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rorl(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.rorq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rorq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.rorq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rorq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.rorq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rorq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.rorw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.rorw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "rorw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.rorw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.rorw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "rorw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.rorw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "rorw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.rorw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "roundpd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.roundpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundpd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.roundpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.roundps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundps", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.roundps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundsd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.roundsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundsd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.roundsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundss", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.roundss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "roundss", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.roundss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "rsqrtps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.rsqrtps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "rsqrtps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.rsqrtps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "rsqrtss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.rsqrtss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "rsqrtss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.rsqrtss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "salb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.salb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "salb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.salb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "salb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.salb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "salb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.salb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "salb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.salb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "salb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.salb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sall", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.sall(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sall", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sall(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sall", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.sall(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sall", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.sall(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sall", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.sall(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sall", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.sall(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "salq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.salq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "salq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.salq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "salq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.salq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "salq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.salq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "salq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.salq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "salq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.salq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "salw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.salw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "salw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.salw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "salw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.salw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "salw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.salw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "salw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.salw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "salw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.salw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.sarb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sarb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.sarb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.sarb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.sarb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.sarb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.sarl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sarl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarl", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.sarl(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarl", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.sarl(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarl", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.sarl(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarl", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.sarl(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.sarq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sarq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.sarq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.sarq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.sarq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.sarq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.sarw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sarw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sarw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.sarw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.sarw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "sarw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.sarw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sarw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.sarw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "sbbb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.sbbb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "sbbb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.sbbb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sbbb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.sbbb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "sbbb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.sbbb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sbbb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.sbbb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.sbbl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.sbbl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.sbbl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.sbbl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sbbl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.sbbl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.sbbl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "sbbl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.sbbl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.sbbq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.sbbq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.sbbq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.sbbq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sbbq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.sbbq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.sbbq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "sbbq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.sbbq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.sbbw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.sbbw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.sbbw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.sbbw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.sbbw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.sbbw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.sbbw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "sbbw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.sbbw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "seta", kinds: &[Kind::Gpr8], emit: |o, w| w.seta(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "seta", kinds: &[Kind::Memory], emit: |o, w| w.seta(Arg::<Memory>::get(o, 0)) },
    Form { name: "setae", kinds: &[Kind::Gpr8], emit: |o, w| w.setae(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setae", kinds: &[Kind::Memory], emit: |o, w| w.setae(Arg::<Memory>::get(o, 0)) },
    Form { name: "setb", kinds: &[Kind::Gpr8], emit: |o, w| w.setb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setb", kinds: &[Kind::Memory], emit: |o, w| w.setb(Arg::<Memory>::get(o, 0)) },
    Form { name: "setbe", kinds: &[Kind::Gpr8], emit: |o, w| w.setbe(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setbe", kinds: &[Kind::Memory], emit: |o, w| w.setbe(Arg::<Memory>::get(o, 0)) },
    Form { name: "setc", kinds: &[Kind::Gpr8], emit: |o, w| w.setc(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setc", kinds: &[Kind::Memory], emit: |o, w| w.setc(Arg::<Memory>::get(o, 0)) },
    Form { name: "sete", kinds: &[Kind::Gpr8], emit: |o, w| w.sete(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "sete", kinds: &[Kind::Memory], emit: |o, w| w.sete(Arg::<Memory>::get(o, 0)) },
    Form { name: "setg", kinds: &[Kind::Gpr8], emit: |o, w| w.setg(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setg", kinds: &[Kind::Memory], emit: |o, w| w.setg(Arg::<Memory>::get(o, 0)) },
    Form { name: "setge", kinds: &[Kind::Gpr8], emit: |o, w| w.setge(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setge", kinds: &[Kind::Memory], emit: |o, w| w.setge(Arg::<Memory>::get(o, 0)) },
    Form { name: "setl", kinds: &[Kind::Gpr8], emit: |o, w| w.setl(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setl", kinds: &[Kind::Memory], emit: |o, w| w.setl(Arg::<Memory>::get(o, 0)) },
    Form { name: "setle", kinds: &[Kind::Gpr8], emit: |o, w| w.setle(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setle", kinds: &[Kind::Memory], emit: |o, w| w.setle(Arg::<Memory>::get(o, 0)) },
    Form { name: "setna", kinds: &[Kind::Gpr8], emit: |o, w| w.setna(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setna", kinds: &[Kind::Memory], emit: |o, w| w.setna(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnae", kinds: &[Kind::Gpr8], emit: |o, w| w.setnae(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnae", kinds: &[Kind::Memory], emit: |o, w| w.setnae(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnb", kinds: &[Kind::Gpr8], emit: |o, w| w.setnb(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnb", kinds: &[Kind::Memory], emit: |o, w| w.setnb(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnbe", kinds: &[Kind::Gpr8], emit: |o, w| w.setnbe(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnbe", kinds: &[Kind::Memory], emit: |o, w| w.setnbe(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnc", kinds: &[Kind::Gpr8], emit: |o, w| w.setnc(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnc", kinds: &[Kind::Memory], emit: |o, w| w.setnc(Arg::<Memory>::get(o, 0)) },
    Form { name: "setne", kinds: &[Kind::Gpr8], emit: |o, w| w.setne(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setne", kinds: &[Kind::Memory], emit: |o, w| w.setne(Arg::<Memory>::get(o, 0)) },
    Form { name: "setng", kinds: &[Kind::Gpr8], emit: |o, w| w.setng(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setng", kinds: &[Kind::Memory], emit: |o, w| w.setng(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnge", kinds: &[Kind::Gpr8], emit: |o, w| w.setnge(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnge", kinds: &[Kind::Memory], emit: |o, w| w.setnge(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnl", kinds: &[Kind::Gpr8], emit: |o, w| w.setnl(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnl", kinds: &[Kind::Memory], emit: |o, w| w.setnl(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnle", kinds: &[Kind::Gpr8], emit: |o, w| w.setnle(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnle", kinds: &[Kind::Memory], emit: |o, w| w.setnle(Arg::<Memory>::get(o, 0)) },
    Form { name: "setno", kinds: &[Kind::Gpr8], emit: |o, w| w.setno(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setno", kinds: &[Kind::Memory], emit: |o, w| w.setno(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnp", kinds: &[Kind::Gpr8], emit: |o, w| w.setnp(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnp", kinds: &[Kind::Memory], emit: |o, w| w.setnp(Arg::<Memory>::get(o, 0)) },
    Form { name: "setns", kinds: &[Kind::Gpr8], emit: |o, w| w.setns(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setns", kinds: &[Kind::Memory], emit: |o, w| w.setns(Arg::<Memory>::get(o, 0)) },
    Form { name: "setnz", kinds: &[Kind::Gpr8], emit: |o, w| w.setnz(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setnz", kinds: &[Kind::Memory], emit: |o, w| w.setnz(Arg::<Memory>::get(o, 0)) },
    Form { name: "seto", kinds: &[Kind::Gpr8], emit: |o, w| w.seto(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "seto", kinds: &[Kind::Memory], emit: |o, w| w.seto(Arg::<Memory>::get(o, 0)) },
    Form { name: "setp", kinds: &[Kind::Gpr8], emit: |o, w| w.setp(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setp", kinds: &[Kind::Memory], emit: |o, w| w.setp(Arg::<Memory>::get(o, 0)) },
    Form { name: "setpe", kinds: &[Kind::Gpr8], emit: |o, w| w.setpe(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setpe", kinds: &[Kind::Memory], emit: |o, w| w.setpe(Arg::<Memory>::get(o, 0)) },
    Form { name: "setpo", kinds: &[Kind::Gpr8], emit: |o, w| w.setpo(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setpo", kinds: &[Kind::Memory], emit: |o, w| w.setpo(Arg::<Memory>::get(o, 0)) },
    Form { name: "sets", kinds: &[Kind::Gpr8], emit: |o, w| w.sets(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "sets", kinds: &[Kind::Memory], emit: |o, w| w.sets(Arg::<Memory>::get(o, 0)) },
    Form { name: "setz", kinds: &[Kind::Gpr8], emit: |o, w| w.setz(Arg::<Gpr8>::get(o, 0)) },
    Form { name: "setz", kinds: &[Kind::Memory], emit: |o, w| w.setz(Arg::<Memory>::get(o, 0)) },
    Form { name: "sfence", kinds: &[], emit: |o, w| w.sfence() },
    Form { name: "sgdt", kinds: &[Kind::Memory], emit: |o, w| w.sgdt(Arg::<Memory>::get(o, 0)) },
    Form { name: "shlb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.shlb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shlb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shlb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shlb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.shlb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shlb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shlb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shlb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.shlb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shlb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shlb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shldl", kinds: &[Kind::Gpr32, Kind::Gpr32, Kind::i8], emit: |o, w| w.shldl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shldl", kinds: &[Kind::Memory, Kind::Gpr32, Kind::i8], emit: |o, w| w.shldl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shldl", kinds: &[Kind::Gpr32, Kind::Gpr32, Kind::_Cl], emit: |o, w| w.shldl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shldl", kinds: &[Kind::Memory, Kind::Gpr32, Kind::_Cl], emit: |o, w| w.shldl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shldq", kinds: &[Kind::Gpr64, Kind::Gpr64, Kind::i8], emit: |o, w| w.shldq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shldq", kinds: &[Kind::Memory, Kind::Gpr64, Kind::i8], emit: |o, w| w.shldq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shldq", kinds: &[Kind::Gpr64, Kind::Gpr64, Kind::_Cl], emit: |o, w| w.shldq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shldq", kinds: &[Kind::Memory, Kind::Gpr64, Kind::_Cl], emit: |o, w| w.shldq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shldw", kinds: &[Kind::Gpr16, Kind::Gpr16, Kind::i8], emit: |o, w| w.shldw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shldw", kinds: &[Kind::Memory, Kind::Gpr16, Kind::i8], emit: |o, w| w.shldw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shldw", kinds: &[Kind::Gpr16, Kind::Gpr16, Kind::_Cl], emit: |o, w| w.shldw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shldw", kinds: &[Kind::Memory, Kind::Gpr16, Kind::_Cl], emit: |o, w| w.shldw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shll", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.shll(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shll", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shll(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shll", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.shll(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shll", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shll(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shll", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.shll(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shll", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shll(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shlq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.shlq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shlq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shlq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shlq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.shlq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shlq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shlq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shlq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.shlq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shlq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shlq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shlw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.shlw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shlw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shlw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shlw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.shlw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shlw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shlw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shlw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.shlw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shlw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shlw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.shrb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shrb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrb", kinds: &[Kind::Gpr8, Kind::_1], emit: |o, w| w.shrb(Arg::<Gpr8>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrb", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shrb(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrb", kinds: &[Kind::Gpr8, Kind::_Cl], emit: |o, w| w.shrb(Arg::<Gpr8>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrb", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shrb(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrdl", kinds: &[Kind::Gpr32, Kind::Gpr32, Kind::i8], emit: |o, w| w.shrdl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shrdl", kinds: &[Kind::Memory, Kind::Gpr32, Kind::i8], emit: |o, w| w.shrdl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shrdl", kinds: &[Kind::Gpr32, Kind::Gpr32, Kind::_Cl], emit: |o, w| w.shrdl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shrdl", kinds: &[Kind::Memory, Kind::Gpr32, Kind::_Cl], emit: |o, w| w.shrdl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shrdq", kinds: &[Kind::Gpr64, Kind::Gpr64, Kind::i8], emit: |o, w| w.shrdq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shrdq", kinds: &[Kind::Memory, Kind::Gpr64, Kind::i8], emit: |o, w| w.shrdq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shrdq", kinds: &[Kind::Gpr64, Kind::Gpr64, Kind::_Cl], emit: |o, w| w.shrdq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shrdq", kinds: &[Kind::Memory, Kind::Gpr64, Kind::_Cl], emit: |o, w| w.shrdq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shrdw", kinds: &[Kind::Gpr16, Kind::Gpr16, Kind::i8], emit: |o, w| w.shrdw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shrdw", kinds: &[Kind::Memory, Kind::Gpr16, Kind::i8], emit: |o, w| w.shrdw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shrdw", kinds: &[Kind::Gpr16, Kind::Gpr16, Kind::_Cl], emit: |o, w| w.shrdw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shrdw", kinds: &[Kind::Memory, Kind::Gpr16, Kind::_Cl], emit: |o, w| w.shrdw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1), Arg::<_Cl>::get(o, 2)) },
    Form { name: "shrl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.shrl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shrl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrl", kinds: &[Kind::Gpr32, Kind::_1], emit: |o, w| w.shrl(Arg::<Gpr32>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrl", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shrl(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrl", kinds: &[Kind::Gpr32, Kind::_Cl], emit: |o, w| w.shrl(Arg::<Gpr32>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrl", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shrl(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.shrq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shrq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrq", kinds: &[Kind::Gpr64, Kind::_1], emit: |o, w| w.shrq(Arg::<Gpr64>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrq", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shrq(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrq", kinds: &[Kind::Gpr64, Kind::_Cl], emit: |o, w| w.shrq(Arg::<Gpr64>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrq", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shrq(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.shrw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.shrw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "shrw", kinds: &[Kind::Gpr16, Kind::_1], emit: |o, w| w.shrw(Arg::<Gpr16>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrw", kinds: &[Kind::Memory, Kind::_1], emit: |o, w| w.shrw(Arg::<Memory>::get(o, 0), Arg::<_1>::get(o, 1)) },
    Form { name: "shrw", kinds: &[Kind::Gpr16, Kind::_Cl], emit: |o, w| w.shrw(Arg::<Gpr16>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shrw", kinds: &[Kind::Memory, Kind::_Cl], emit: |o, w| w.shrw(Arg::<Memory>::get(o, 0), Arg::<_Cl>::get(o, 1)) },
    Form { name: "shufpd", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.shufpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shufpd", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.shufpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shufps", kinds: &[Kind::Xmm, Kind::Xmm, Kind::i8], emit: |o, w| w.shufps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "shufps", kinds: &[Kind::Xmm, Kind::Memory, Kind::i8], emit: |o, w| w.shufps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1), Arg::<i8>::get(o, 2)) },
    Form { name: "sidt", kinds: &[Kind::Memory], emit: |o, w| w.sidt(Arg::<Memory>::get(o, 0)) },
    Form { name: "sqrtpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.sqrtpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "sqrtpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.sqrtpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sqrtps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.sqrtps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "sqrtps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.sqrtps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sqrtsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.sqrtsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "sqrtsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.sqrtsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "sqrtss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.sqrtss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "sqrtss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.sqrtss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "stc", kinds: &[], emit: |o, w| w.stc() },
    Form { name: "std", kinds: &[], emit: |o, w| w.std() },
    Form { name: "sti", kinds: &[], emit: |o, w| w.sti() },
    Form { name: "stmxcsr", kinds: &[Kind::Memory], emit: |o, w| w.stmxcsr(Arg::<Memory>::get(o, 0)) },
    Form { name: "str", kinds: &[Kind::Gpr16], emit: |o, w| w.str(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "str", kinds: &[Kind::Memory], emit: |o, w| w.str(Arg::<Memory>::get(o, 0)) },
    Form { name: "subb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.subb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "subb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.subb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.subb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "subb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.subb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.subb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.subb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.subl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.subl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.subl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.subl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.subl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.subl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.subl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "subl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.subl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "subpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.subpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "subpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.subpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.subps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "subps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.subps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.subq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.subq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.subq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.subq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.subq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.subq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.subq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "subq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.subq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "subsd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.subsd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "subsd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.subsd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.subss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "subss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.subss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.subw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.subw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.subw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.subw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.subw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.subw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.subw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "subw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.subw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "swapgs", kinds: &[], emit: |o, w| w.swapgs() },
    Form { name: "testb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.testb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "testb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.testb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "testb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.testb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "testb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.testb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "testb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.testb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "testl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.testl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "testl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.testl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "testl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.testl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "testl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.testl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "testl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.testl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "testq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.testq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "testq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.testq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "testq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.testq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "testq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.testq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "testq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.testq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "testw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.testw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "testw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.testw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "testw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.testw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "testw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.testw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "testw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.testw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "ucomisd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.ucomisd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "ucomisd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.ucomisd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "ucomiss", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.ucomiss(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "ucomiss", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.ucomiss(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "ud2", kinds: &[], emit: |o, w| w.ud2() },
    Form { name: "unpckhpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.unpckhpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "unpckhpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.unpckhpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "unpckhps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.unpckhps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "unpckhps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.unpckhps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "unpcklpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.unpcklpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "unpcklpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.unpcklpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "unpcklps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.unpcklps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "unpcklps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.unpcklps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "verr", kinds: &[Kind::Gpr16], emit: |o, w| w.verr(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "verr", kinds: &[Kind::Memory], emit: |o, w| w.verr(Arg::<Memory>::get(o, 0)) },
    Form { name: "verw", kinds: &[Kind::Gpr16], emit: |o, w| w.verw(Arg::<Gpr16>::get(o, 0)) },
    Form { name: "verw", kinds: &[Kind::Memory], emit: |o, w| w.verw(Arg::<Memory>::get(o, 0)) },
    Form { name: "wbinvd", kinds: &[], emit: |o, w| w.wbinvd() },
    Form { name: "wrmsr", kinds: &[], emit: |o, w| w.wrmsr() },
    Form { name: "xaddb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.xaddb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "xaddb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.xaddb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "xaddl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.xaddl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xaddl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.xaddl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xaddq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.xaddq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xaddq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.xaddq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xaddw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.xaddw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xaddw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.xaddw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xchgb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.xchgb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "xchgb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.xchgb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xchgb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.xchgb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "xchgl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.xchgl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xchgl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.xchgl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xchgl", kinds: &[Kind::Gpr32, Kind::_Eax], emit: |o, w| w.xchgl(Arg::<Gpr32>::get(o, 0), Arg::<_Eax>::get(o, 1)) },
    Form { name: "xchgl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.xchgl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xchgl", kinds: &[Kind::_Eax, Kind::Gpr32], emit: |o, w| w.xchgl(Arg::<_Eax>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xchgq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.xchgq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xchgq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.xchgq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xchgq", kinds: &[Kind::Gpr64, Kind::_Rax], emit: |o, w| w.xchgq(Arg::<Gpr64>::get(o, 0), Arg::<_Rax>::get(o, 1)) },
    Form { name: "xchgq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.xchgq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xchgq", kinds: &[Kind::_Rax, Kind::Gpr64], emit: |o, w| w.xchgq(Arg::<_Rax>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xchgw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.xchgw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xchgw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.xchgw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xchgw", kinds: &[Kind::Gpr16, Kind::_Ax], emit: |o, w| w.xchgw(Arg::<Gpr16>::get(o, 0), Arg::<_Ax>::get(o, 1)) },
    Form { name: "xchgw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.xchgw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xchgw", kinds: &[Kind::_Ax, Kind::Gpr16], emit: |o, w| w.xchgw(Arg::<_Ax>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xorb", kinds: &[Kind::Gpr8, Kind::Gpr8], emit: |o, w| w.xorb(Arg::<Gpr8>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "xorb", kinds: &[Kind::Gpr8, Kind::Memory], emit: |o, w| w.xorb(Arg::<Gpr8>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xorb", kinds: &[Kind::Memory, Kind::Gpr8], emit: |o, w| w.xorb(Arg::<Memory>::get(o, 0), Arg::<Gpr8>::get(o, 1)) },
    Form { name: "xorb", kinds: &[Kind::Gpr8, Kind::i8], emit: |o, w| w.xorb(Arg::<Gpr8>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorb", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.xorb(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorb", kinds: &[Kind::_Al, Kind::i8], emit: |o, w| w.xorb(Arg::<_Al>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Gpr32, Kind::Gpr32], emit: |o, w| w.xorl(Arg::<Gpr32>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Gpr32, Kind::Memory], emit: |o, w| w.xorl(Arg::<Gpr32>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Memory, Kind::Gpr32], emit: |o, w| w.xorl(Arg::<Memory>::get(o, 0), Arg::<Gpr32>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Gpr32, Kind::i8], emit: |o, w| w.xorl(Arg::<Gpr32>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.xorl(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Gpr32, Kind::i32], emit: |o, w| w.xorl(Arg::<Gpr32>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.xorl(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "xorl", kinds: &[Kind::_Eax, Kind::i32], emit: |o, w| w.xorl(Arg::<_Eax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "xorpd", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.xorpd(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "xorpd", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.xorpd(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xorps", kinds: &[Kind::Xmm, Kind::Xmm], emit: |o, w| w.xorps(Arg::<Xmm>::get(o, 0), Arg::<Xmm>::get(o, 1)) },
    Form { name: "xorps", kinds: &[Kind::Xmm, Kind::Memory], emit: |o, w| w.xorps(Arg::<Xmm>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Gpr64, Kind::Gpr64], emit: |o, w| w.xorq(Arg::<Gpr64>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Gpr64, Kind::Memory], emit: |o, w| w.xorq(Arg::<Gpr64>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Memory, Kind::Gpr64], emit: |o, w| w.xorq(Arg::<Memory>::get(o, 0), Arg::<Gpr64>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Gpr64, Kind::i8], emit: |o, w| w.xorq(Arg::<Gpr64>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.xorq(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Gpr64, Kind::i32], emit: |o, w| w.xorq(Arg::<Gpr64>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::Memory, Kind::i32], emit: |o, w| w.xorq(Arg::<Memory>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "xorq", kinds: &[Kind::_Rax, Kind::i32], emit: |o, w| w.xorq(Arg::<_Rax>::get(o, 0), Arg::<i32>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Gpr16, Kind::Gpr16], emit: |o, w| w.xorw(Arg::<Gpr16>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Gpr16, Kind::Memory], emit: |o, w| w.xorw(Arg::<Gpr16>::get(o, 0), Arg::<Memory>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Memory, Kind::Gpr16], emit: |o, w| w.xorw(Arg::<Memory>::get(o, 0), Arg::<Gpr16>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Gpr16, Kind::i8], emit: |o, w| w.xorw(Arg::<Gpr16>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Memory, Kind::i8], emit: |o, w| w.xorw(Arg::<Memory>::get(o, 0), Arg::<i8>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Gpr16, Kind::i16], emit: |o, w| w.xorw(Arg::<Gpr16>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::Memory, Kind::i16], emit: |o, w| w.xorw(Arg::<Memory>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "xorw", kinds: &[Kind::_Ax, Kind::i16], emit: |o, w| w.xorw(Arg::<_Ax>::get(o, 0), Arg::<i16>::get(o, 1)) },
    Form { name: "xsetbv", kinds: &[], emit: |o, w| w.xsetbv() },
];
