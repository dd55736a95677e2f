// operand bytes of each instruction (specification)
{BytecodeOp::LoadNull, 4},
{BytecodeOp::LoadFalse, 4},
{BytecodeOp::LoadTrue, 4},
{BytecodeOp::LoadInt, 12},
{BytecodeOp::LoadFloat, 12},
{BytecodeOp::LoadParam, 8},
{BytecodeOp::StoreParam, 8},
{BytecodeOp::LoadModule, 8},
{BytecodeOp::StoreModule, 8},
{BytecodeOp::LoadMember, 12},
{BytecodeOp::StoreMember, 12},
{BytecodeOp::LoadTupleMember, 12},
{BytecodeOp::StoreTupleMember, 12},
{BytecodeOp::LoadIndex, 12},
{BytecodeOp::StoreIndex, 12},
{BytecodeOp::LoadClosure, 4},
{BytecodeOp::LoadEnv, 16},
{BytecodeOp::StoreEnv, 16},
{BytecodeOp::Add, 12},
{BytecodeOp::Sub, 12},
{BytecodeOp::Mul, 12},
{BytecodeOp::Div, 12},
{BytecodeOp::Mod, 12},
{BytecodeOp::Pow, 12},
{BytecodeOp::UAdd, 8},
{BytecodeOp::UNeg, 8},
{BytecodeOp::LSh, 12},
{BytecodeOp::RSh, 12},
{BytecodeOp::BAnd, 12},
{BytecodeOp::BOr, 12},
{BytecodeOp::BXor, 12},
{BytecodeOp::BNot, 8},
{BytecodeOp::Gt, 12},
{BytecodeOp::Gte, 12},
{BytecodeOp::Lt, 12},
{BytecodeOp::Lte, 12},
{BytecodeOp::Eq, 12},
{BytecodeOp::NEq, 12},
{BytecodeOp::LNot, 8},
{BytecodeOp::Array, 8},
{BytecodeOp::Tuple, 8},
{BytecodeOp::Set, 8},
{BytecodeOp::Map, 8},
{BytecodeOp::Env, 12},
{BytecodeOp::Closure, 12},
{BytecodeOp::Record, 8},
{BytecodeOp::Iterator, 8},
{BytecodeOp::IteratorNext, 12},
{BytecodeOp::Formatter, 4},
{BytecodeOp::AppendFormat, 8},
{BytecodeOp::FormatResult, 8},
{BytecodeOp::Copy, 8},
{BytecodeOp::Swap, 8},
{BytecodeOp::Push, 4},
{BytecodeOp::Pop, 0},
{BytecodeOp::PopTo, 4},
{BytecodeOp::Jmp, 4},
{BytecodeOp::JmpTrue, 8},
{BytecodeOp::JmpFalse, 8},
{BytecodeOp::JmpNull, 8},
{BytecodeOp::JmpNotNull, 8},
{BytecodeOp::Call, 8},
{BytecodeOp::LoadMethod, 16},
{BytecodeOp::CallMethod, 8},
{BytecodeOp::Return, 4},
{BytecodeOp::Rethrow, 0},
{BytecodeOp::AssertFail, 8},
