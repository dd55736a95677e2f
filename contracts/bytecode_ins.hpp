// One case per instruction: writer method, operands in encoding order, decoded fields. Written once from the
// instruction list of the language (67 instructions); it is the specification and is not regenerated from /repo.
case 0: { auto p0 = e.reg("target"); e.begin(BytecodeOp::LoadNull); w.load_null(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::LoadNull).as_load_null(); (void) d; e.same(d.target, p0); break; }
case 1: { auto p0 = e.reg("target"); e.begin(BytecodeOp::LoadFalse); w.load_false(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::LoadFalse).as_load_false(); (void) d; e.same(d.target, p0); break; }
case 2: { auto p0 = e.reg("target"); e.begin(BytecodeOp::LoadTrue); w.load_true(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::LoadTrue).as_load_true(); (void) d; e.same(d.target, p0); break; }
case 3: { auto p0 = e.i64("constant"); auto p1 = e.reg("target"); e.begin(BytecodeOp::LoadInt); w.load_int(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::LoadInt).as_load_int(); (void) d; e.same(d.constant, p0); e.same(d.target, p1); break; }
case 4: { auto p0 = e.f64("constant"); auto p1 = e.reg("target"); e.begin(BytecodeOp::LoadFloat); w.load_float(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::LoadFloat).as_load_float(); (void) d; e.same(d.constant, p0); e.same(d.target, p1); break; }
case 5: { auto p0 = e.param("source"); auto p1 = e.reg("target"); e.begin(BytecodeOp::LoadParam); w.load_param(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::LoadParam).as_load_param(); (void) d; e.same(d.source, p0); e.same(d.target, p1); break; }
case 6: { auto p0 = e.reg("source"); auto p1 = e.param("target"); e.begin(BytecodeOp::StoreParam); w.store_param(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::StoreParam).as_store_param(); (void) d; e.same(d.source, p0); e.same(d.target, p1); break; }
case 7: { auto p0 = e.member("source"); auto p1 = e.reg("target"); e.begin(BytecodeOp::LoadModule); w.load_module(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::LoadModule).as_load_module(); (void) d; e.same(d.source, p0); e.same(d.target, p1); break; }
case 8: { auto p0 = e.reg("source"); auto p1 = e.member("target"); e.begin(BytecodeOp::StoreModule); w.store_module(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::StoreModule).as_store_module(); (void) d; e.same(d.source, p0); e.same(d.target, p1); break; }
case 9: { auto p0 = e.reg("object"); auto p1 = e.member("name"); auto p2 = e.reg("target"); e.begin(BytecodeOp::LoadMember); w.load_member(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::LoadMember).as_load_member(); (void) d; e.same(d.object, p0); e.same(d.name, p1); e.same(d.target, p2); break; }
case 10: { auto p0 = e.reg("source"); auto p1 = e.reg("object"); auto p2 = e.member("name"); e.begin(BytecodeOp::StoreMember); w.store_member(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::StoreMember).as_store_member(); (void) d; e.same(d.source, p0); e.same(d.object, p1); e.same(d.name, p2); break; }
case 11: { auto p0 = e.reg("tuple"); auto p1 = e.u32("index"); auto p2 = e.reg("target"); e.begin(BytecodeOp::LoadTupleMember); w.load_tuple_member(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::LoadTupleMember).as_load_tuple_member(); (void) d; e.same(d.tuple, p0); e.same(d.index, p1); e.same(d.target, p2); break; }
case 12: { auto p0 = e.reg("source"); auto p1 = e.reg("tuple"); auto p2 = e.u32("index"); e.begin(BytecodeOp::StoreTupleMember); w.store_tuple_member(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::StoreTupleMember).as_store_tuple_member(); (void) d; e.same(d.source, p0); e.same(d.tuple, p1); e.same(d.index, p2); break; }
case 13: { auto p0 = e.reg("array"); auto p1 = e.reg("index"); auto p2 = e.reg("target"); e.begin(BytecodeOp::LoadIndex); w.load_index(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::LoadIndex).as_load_index(); (void) d; e.same(d.array, p0); e.same(d.index, p1); e.same(d.target, p2); break; }
case 14: { auto p0 = e.reg("source"); auto p1 = e.reg("array"); auto p2 = e.reg("index"); e.begin(BytecodeOp::StoreIndex); w.store_index(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::StoreIndex).as_store_index(); (void) d; e.same(d.source, p0); e.same(d.array, p1); e.same(d.index, p2); break; }
case 15: { auto p0 = e.reg("target"); e.begin(BytecodeOp::LoadClosure); w.load_closure(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::LoadClosure).as_load_closure(); (void) d; e.same(d.target, p0); break; }
case 16: { auto p0 = e.reg("env"); auto p1 = e.u32("level"); auto p2 = e.u32("index"); auto p3 = e.reg("target"); e.begin(BytecodeOp::LoadEnv); w.load_env(p0, p1, p2, p3); e.put(p0); e.put(p1); e.put(p2); e.put(p3); const auto& d = e.decode(BytecodeOp::LoadEnv).as_load_env(); (void) d; e.same(d.env, p0); e.same(d.level, p1); e.same(d.index, p2); e.same(d.target, p3); break; }
case 17: { auto p0 = e.reg("source"); auto p1 = e.reg("env"); auto p2 = e.u32("level"); auto p3 = e.u32("index"); e.begin(BytecodeOp::StoreEnv); w.store_env(p0, p1, p2, p3); e.put(p0); e.put(p1); e.put(p2); e.put(p3); const auto& d = e.decode(BytecodeOp::StoreEnv).as_store_env(); (void) d; e.same(d.source, p0); e.same(d.env, p1); e.same(d.level, p2); e.same(d.index, p3); break; }
case 18: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Add); w.add(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Add).as_add(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 19: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Sub); w.sub(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Sub).as_sub(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 20: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Mul); w.mul(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Mul).as_mul(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 21: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Div); w.div(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Div).as_div(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 22: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Mod); w.mod(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Mod).as_mod(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 23: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Pow); w.pow(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Pow).as_pow(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 24: { auto p0 = e.reg("value"); auto p1 = e.reg("target"); e.begin(BytecodeOp::UAdd); w.uadd(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::UAdd).as_uadd(); (void) d; e.same(d.value, p0); e.same(d.target, p1); break; }
case 25: { auto p0 = e.reg("value"); auto p1 = e.reg("target"); e.begin(BytecodeOp::UNeg); w.uneg(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::UNeg).as_uneg(); (void) d; e.same(d.value, p0); e.same(d.target, p1); break; }
case 26: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::LSh); w.lsh(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::LSh).as_lsh(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 27: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::RSh); w.rsh(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::RSh).as_rsh(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 28: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::BAnd); w.band(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::BAnd).as_band(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 29: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::BOr); w.bor(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::BOr).as_bor(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 30: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::BXor); w.bxor(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::BXor).as_bxor(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 31: { auto p0 = e.reg("value"); auto p1 = e.reg("target"); e.begin(BytecodeOp::BNot); w.bnot(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::BNot).as_bnot(); (void) d; e.same(d.value, p0); e.same(d.target, p1); break; }
case 32: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Gt); w.gt(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Gt).as_gt(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 33: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Gte); w.gte(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Gte).as_gte(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 34: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Lt); w.lt(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Lt).as_lt(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 35: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Lte); w.lte(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Lte).as_lte(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 36: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Eq); w.eq(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Eq).as_eq(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 37: { auto p0 = e.reg("lhs"); auto p1 = e.reg("rhs"); auto p2 = e.reg("target"); e.begin(BytecodeOp::NEq); w.neq(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::NEq).as_neq(); (void) d; e.same(d.lhs, p0); e.same(d.rhs, p1); e.same(d.target, p2); break; }
case 38: { auto p0 = e.reg("value"); auto p1 = e.reg("target"); e.begin(BytecodeOp::LNot); w.lnot(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::LNot).as_lnot(); (void) d; e.same(d.value, p0); e.same(d.target, p1); break; }
case 39: { auto p0 = e.u32("count"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Array); w.array(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Array).as_array(); (void) d; e.same(d.count, p0); e.same(d.target, p1); break; }
case 40: { auto p0 = e.u32("count"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Tuple); w.tuple(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Tuple).as_tuple(); (void) d; e.same(d.count, p0); e.same(d.target, p1); break; }
case 41: { auto p0 = e.u32("count"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Set); w.set(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Set).as_set(); (void) d; e.same(d.count, p0); e.same(d.target, p1); break; }
case 42: { auto p0 = e.u32("count"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Map); w.map(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Map).as_map(); (void) d; e.same(d.count, p0); e.same(d.target, p1); break; }
case 43: { auto p0 = e.reg("parent"); auto p1 = e.u32("size"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Env); w.env(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Env).as_env(); (void) d; e.same(d.parent, p0); e.same(d.size, p1); e.same(d.target, p2); break; }
case 44: { auto p0 = e.member("tmpl"); auto p1 = e.reg("env"); auto p2 = e.reg("target"); e.begin(BytecodeOp::Closure); w.closure(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::Closure).as_closure(); (void) d; e.same(d.tmpl, p0); e.same(d.env, p1); e.same(d.target, p2); break; }
case 45: { auto p0 = e.member("schema"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Record); w.record(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Record).as_record(); (void) d; e.same(d.schema, p0); e.same(d.target, p1); break; }
case 46: { auto p0 = e.reg("container"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Iterator); w.iterator(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Iterator).as_iterator(); (void) d; e.same(d.container, p0); e.same(d.target, p1); break; }
case 47: { auto p0 = e.reg("iterator"); auto p1 = e.reg("valid"); auto p2 = e.reg("value"); e.begin(BytecodeOp::IteratorNext); w.iterator_next(p0, p1, p2); e.put(p0); e.put(p1); e.put(p2); const auto& d = e.decode(BytecodeOp::IteratorNext).as_iterator_next(); (void) d; e.same(d.iterator, p0); e.same(d.valid, p1); e.same(d.value, p2); break; }
case 48: { auto p0 = e.reg("target"); e.begin(BytecodeOp::Formatter); w.formatter(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::Formatter).as_formatter(); (void) d; e.same(d.target, p0); break; }
case 49: { auto p0 = e.reg("value"); auto p1 = e.reg("formatter"); e.begin(BytecodeOp::AppendFormat); w.append_format(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::AppendFormat).as_append_format(); (void) d; e.same(d.value, p0); e.same(d.formatter, p1); break; }
case 50: { auto p0 = e.reg("formatter"); auto p1 = e.reg("target"); e.begin(BytecodeOp::FormatResult); w.format_result(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::FormatResult).as_format_result(); (void) d; e.same(d.formatter, p0); e.same(d.target, p1); break; }
case 51: { auto p0 = e.reg("source"); auto p1 = e.reg("target"); e.begin(BytecodeOp::Copy); w.copy(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Copy).as_copy(); (void) d; e.same(d.source, p0); e.same(d.target, p1); break; }
case 52: { auto p0 = e.reg("a"); auto p1 = e.reg("b"); e.begin(BytecodeOp::Swap); w.swap(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Swap).as_swap(); (void) d; e.same(d.a, p0); e.same(d.b, p1); break; }
case 53: { auto p0 = e.reg("value"); e.begin(BytecodeOp::Push); w.push(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::Push).as_push(); (void) d; e.same(d.value, p0); break; }
case 54: { e.begin(BytecodeOp::Pop); w.pop(); const auto& d = e.decode(BytecodeOp::Pop).as_pop(); (void) d; break; }
case 55: { auto p0 = e.reg("target"); e.begin(BytecodeOp::PopTo); w.pop_to(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::PopTo).as_pop_to(); (void) d; e.same(d.target, p0); break; }
case 56: { auto p0 = e.offset("offset"); e.begin(BytecodeOp::Jmp); w.jmp(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::Jmp).as_jmp(); (void) d; e.same(d.offset, p0); break; }
case 57: { auto p0 = e.reg("condition"); auto p1 = e.offset("offset"); e.begin(BytecodeOp::JmpTrue); w.jmp_true(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::JmpTrue).as_jmp_true(); (void) d; e.same(d.condition, p0); e.same(d.offset, p1); break; }
case 58: { auto p0 = e.reg("condition"); auto p1 = e.offset("offset"); e.begin(BytecodeOp::JmpFalse); w.jmp_false(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::JmpFalse).as_jmp_false(); (void) d; e.same(d.condition, p0); e.same(d.offset, p1); break; }
case 59: { auto p0 = e.reg("condition"); auto p1 = e.offset("offset"); e.begin(BytecodeOp::JmpNull); w.jmp_null(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::JmpNull).as_jmp_null(); (void) d; e.same(d.condition, p0); e.same(d.offset, p1); break; }
case 60: { auto p0 = e.reg("condition"); auto p1 = e.offset("offset"); e.begin(BytecodeOp::JmpNotNull); w.jmp_not_null(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::JmpNotNull).as_jmp_not_null(); (void) d; e.same(d.condition, p0); e.same(d.offset, p1); break; }
case 61: { auto p0 = e.reg("function"); auto p1 = e.u32("count"); e.begin(BytecodeOp::Call); w.call(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::Call).as_call(); (void) d; e.same(d.function, p0); e.same(d.count, p1); break; }
case 62: { auto p0 = e.reg("object"); auto p1 = e.member("name"); auto p2 = e.reg("thiz"); auto p3 = e.reg("method"); e.begin(BytecodeOp::LoadMethod); w.load_method(p0, p1, p2, p3); e.put(p0); e.put(p1); e.put(p2); e.put(p3); const auto& d = e.decode(BytecodeOp::LoadMethod).as_load_method(); (void) d; e.same(d.object, p0); e.same(d.name, p1); e.same(d.thiz, p2); e.same(d.method, p3); break; }
case 63: { auto p0 = e.reg("method"); auto p1 = e.u32("count"); e.begin(BytecodeOp::CallMethod); w.call_method(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::CallMethod).as_call_method(); (void) d; e.same(d.method, p0); e.same(d.count, p1); break; }
case 64: { auto p0 = e.reg("value"); e.begin(BytecodeOp::Return); w.ret(p0); e.put(p0); const auto& d = e.decode(BytecodeOp::Return).as_return(); (void) d; e.same(d.value, p0); break; }
case 65: { e.begin(BytecodeOp::Rethrow); w.rethrow(); const auto& d = e.decode(BytecodeOp::Rethrow).as_rethrow(); (void) d; break; }
case 66: { auto p0 = e.reg("expr"); auto p1 = e.reg("message"); e.begin(BytecodeOp::AssertFail); w.assert_fail(p0, p1); e.put(p0); e.put(p1); const auto& d = e.decode(BytecodeOp::AssertFail).as_assert_fail(); (void) d; e.same(d.expr, p0); e.same(d.message, p1); break; }
#define VK_INSTRUCTIONS 67
