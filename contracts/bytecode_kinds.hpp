// operand kinds of each instruction (specification): r register, p parameter, m member, y symbol member, v variable member,
// c closure function member, R record schema member, o offset, u number, n element count, N key and value count, 8 constant
{BytecodeOp::LoadNull, "r"},
{BytecodeOp::LoadFalse, "r"},
{BytecodeOp::LoadTrue, "r"},
{BytecodeOp::LoadInt, "8r"},
{BytecodeOp::LoadFloat, "8r"},
{BytecodeOp::LoadParam, "pr"},
{BytecodeOp::StoreParam, "rp"},
{BytecodeOp::LoadModule, "mr"},
{BytecodeOp::StoreModule, "rv"},
{BytecodeOp::LoadMember, "ryr"},
{BytecodeOp::StoreMember, "rry"},
{BytecodeOp::LoadTupleMember, "rur"},
{BytecodeOp::StoreTupleMember, "rru"},
{BytecodeOp::LoadIndex, "rrr"},
{BytecodeOp::StoreIndex, "rrr"},
{BytecodeOp::LoadClosure, "r"},
{BytecodeOp::LoadEnv, "ruur"},
{BytecodeOp::StoreEnv, "rruu"},
{BytecodeOp::Add, "rrr"},
{BytecodeOp::Sub, "rrr"},
{BytecodeOp::Mul, "rrr"},
{BytecodeOp::Div, "rrr"},
{BytecodeOp::Mod, "rrr"},
{BytecodeOp::Pow, "rrr"},
{BytecodeOp::UAdd, "rr"},
{BytecodeOp::UNeg, "rr"},
{BytecodeOp::LSh, "rrr"},
{BytecodeOp::RSh, "rrr"},
{BytecodeOp::BAnd, "rrr"},
{BytecodeOp::BOr, "rrr"},
{BytecodeOp::BXor, "rrr"},
{BytecodeOp::BNot, "rr"},
{BytecodeOp::Gt, "rrr"},
{BytecodeOp::Gte, "rrr"},
{BytecodeOp::Lt, "rrr"},
{BytecodeOp::Lte, "rrr"},
{BytecodeOp::Eq, "rrr"},
{BytecodeOp::NEq, "rrr"},
{BytecodeOp::LNot, "rr"},
{BytecodeOp::Array, "nr"},
{BytecodeOp::Tuple, "nr"},
{BytecodeOp::Set, "nr"},
{BytecodeOp::Map, "Nr"},
{BytecodeOp::Env, "rur"},
{BytecodeOp::Closure, "crr"},
{BytecodeOp::Record, "Rr"},
{BytecodeOp::Iterator, "rr"},
{BytecodeOp::IteratorNext, "rrr"},
{BytecodeOp::Formatter, "r"},
{BytecodeOp::AppendFormat, "rr"},
{BytecodeOp::FormatResult, "rr"},
{BytecodeOp::Copy, "rr"},
{BytecodeOp::Swap, "rr"},
{BytecodeOp::Push, "r"},
{BytecodeOp::Pop, ""},
{BytecodeOp::PopTo, "r"},
{BytecodeOp::Jmp, "o"},
{BytecodeOp::JmpTrue, "ro"},
{BytecodeOp::JmpFalse, "ro"},
{BytecodeOp::JmpNull, "ro"},
{BytecodeOp::JmpNotNull, "ro"},
{BytecodeOp::Call, "ru"},
{BytecodeOp::LoadMethod, "ryrr"},
{BytecodeOp::CallMethod, "ru"},
{BytecodeOp::Return, "r"},
{BytecodeOp::Rethrow, ""},
{BytecodeOp::AssertFail, "rr"},
