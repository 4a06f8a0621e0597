"""C06: cross-artifact consistency of the instruction set. The specification of an opcode is the field list of its instruction record
(`tiro::BytecodeInstr::X`: order and types). Rules compare with it, per opcode: `encoder` (BytecodeWriter method: position and type of every
operand passed to write(), width emitted by write_impl), `decoder` (sequence and width of reads on every path of BytecodeReader::read,
position of each read value in the constructed record, remaining() compared with at least the total operand width before the first read),
`formatter` (every field printed once, in order), `interpreter` (sequence and width of operand reads on every path of the opcode's case, kind
of use of each operand, which registers are written, operand positions of the runtime operation), `opcode-table` (valid_opcode,
references_offset, references_module, to_string tabulated over all 256 codes) and `byte-codec` (width, bounds and byte order of the primitive
reads and writes). All case analyses are over the control flow graphs; sequences include reads made in helper functions and lambdas."""
import re
from ..facts import AnalysisBroken
from ..guards import Engine, Facts, ctx_of, norm, strip_targs
from ..paths import Events, Switch, switches, longest, origin, refs_to, enum_values, record
from ..consteval import table, NORETURN
from ..effects import in_assert

OP = "tiro::BytecodeOp"
REG, PARAM, OFF, MEM, LABEL = ("tiro::BytecodeRegister", "tiro::BytecodeParam", "tiro::BytecodeOffset", "tiro::BytecodeMemberId", "tiro::BytecodeLabel")
WIDTH = {REG: "u32", PARAM: "u32", OFF: "u32", MEM: "u32", LABEL: "u32", "unsigned int": "u32", "long": "i64", "double": "f64"}
SIZE = {"u32": 4, "i64": 8, "f64": 8, "u8": 1, "u16": 2, "u64": 8, "i8": 1, "i16": 2, "i32": 4}

# the registers an instruction writes
OUTPUTS = {"IteratorNext": ["valid", "value"], "LoadMethod": ["thiz", "method"], "Swap": ["a", "b"]}
# runtime operations: callee name -> field for each argument position (starting at 1, position 0 is the context)
ARITH = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Mod": "mod", "Pow": "pow", "UAdd": "unary_plus", "UNeg": "unary_minus",
         "BNot": "bitwise_not", "LSh": "shift_left", "RSh": "shift_right", "BAnd": "bitwise_and", "BOr": "bitwise_or", "BXor": "bitwise_xor"}
CMP = {"Gt": ">", "Gte": ">=", "Lt": "<", "Lte": "<="}
CALLS = {"LoadMember": ("load_member", ["object", "name"]), "StoreMember": ("store_member", ["object", "name", "source"]),
         "LoadIndex": ("load_index", ["array", "index"]), "StoreIndex": ("store_index", ["array", "index", "source"]),
         "Iterator": ("iterator", ["container"]), "IteratorNext": ("iterator_next", ["iterator"]), "LoadMethod": ("load_method", ["object", "name"])}
JUMPS = {"JmpTrue": ("is_truthy", True), "JmpFalse": ("is_truthy", False), "JmpNull": ("is_null", True), "JmpNotNull": ("is_null", False)}


def bare(t):
    t = re.sub(r"^const ", "", t.strip())
    return t[:-1].strip() if t.endswith("&") else t


def run(prog, rep):
    for r, t in (("encoder", "operands written by BytecodeWriter equal the instruction's fields in order and type"),
                 ("encoder-width", "write_impl emits the width of the operand type and records label and member references"),
                 ("decoder", "BytecodeReader::read reads the fields in order with their width and builds the record from them"),
                 ("decoder-bounds", "remaining() is compared with the operand size before the first operand is read"),
                 ("formatter", "every field of an instruction is printed once and in order"),
                 ("interpreter", "the interpreter reads exactly the operands of the instruction in order and width"),
                 ("interpreter-use", "the interpreter uses each operand according to its kind"),
                 ("interpreter-operation", "the interpreter applies the operation the opcode names to the operands in order"),
                 ("opcode-table", "the opcode predicates agree with the instruction records"),
                 ("byte-codec", "primitive reads and writes agree in width and byte order and check the bounds")):
        rep.rule(r, t)
    ops = enum_values(prog, OP)
    names = [n for n, _ in ops]
    if len(ops) < 50:
        raise AnalysisBroken("opcode enumeration not found")
    spec = {n: [(f["n"], f["t"]) for f in record(prog, "tiro::BytecodeInstr::" + n).fields] for n in names}
    for n, fs in spec.items():
        for fn_, t in fs:
            if t not in WIDTH:
                raise AnalysisBroken("unknown operand type %s in %s" % (t, n))

    encoder(prog, rep, spec)
    decoder(prog, rep, spec)
    formatter(prog, rep, spec)
    interpreter(prog, rep, spec)
    tables(prog, rep, spec, ops)
    codec(prog, rep)


def encoder(prog, rep, spec):
    seen = {}
    for f in prog.fns.values():
        if f.cls != "tiro::BytecodeWriter":
            continue
        for c in f.calls():
            if c.q != "tiro::BytecodeWriter::write" or not c.args or c.args[0] is None:
                continue
            op = origin(f, c.args[0])
            if op is None or op.k != "enum":
                continue
            name = op.name
            pts = [bare(t) for t in c.d.get("pt", ())][1:] or [bare(a.type) for a in c.args[1:]]
            want = [t for _, t in spec.get(name, [])]
            got = [OFF if t == LABEL else t for t in pts]
            ok = rep.check(got == want, "encoder", c.loc, "%s operands" % name,
                           "%s writes operands (%s) but the instruction has (%s)" % (f.name, ", ".join(got), ", ".join(want)))
            if ok:
                for i, a in enumerate(c.args[1:]):
                    o = origin(f, a)
                    idx = next((j for j, p in enumerate(f.params) if o is not None and o.k == "ref" and o.decl == p.id), None)
                    if idx is not None:
                        rep.check(idx == i, "encoder", c.loc, "%s operand %d" % (name, i),
                                  "operand %d ('%s') is taken from parameter %d of %s" % (i, spec[name][i][0], idx, f.name))
            seen.setdefault(name, []).append(f)
    for name in spec:
        rep.check(name in seen, "encoder", "src/bytecode/writer.hpp", "%s has a writer" % name, "no BytecodeWriter method emits opcode %s" % name)
    # write() passes every argument to write_impl in order
    for f in prog.find("tiro::BytecodeWriter::write", one=False):
        ev = Events(prog, lambda fn, n: "w" if n.k == "call" and n.q == "tiro::BytecodeWriter::write_impl" else None)
        for s in ev.whole(f):
            ids = []
            for _, n in s:
                o = origin(f, n.args[0])
                ids.append(next((j for j, p in enumerate(f.params) if o is not None and o.k == "ref" and o.decl == p.id), None))
            rep.check(ids == list(range(len(f.params))), "encoder", f.loc, "write with %d arguments" % len(f.params),
                      "write() emits its arguments in the order %s" % ids)
    impls = prog.find("tiro::BytecodeWriter::write_impl", one=False)
    got = set()
    for f in impls:
        if len(f.params) != 1:
            continue
        t = bare(f.params[0].type)
        w = "u8" if t == OP else WIDTH.get(t)
        if w is None:
            rep.bad("encoder-width", f.loc, "write_impl(%s)" % t, "operand type without defined width")
            continue
        got.add(t)
        ev = Events(prog, lambda fn, n: n.name if n.k == "call" and n.q.startswith("tiro::BinaryWriter::emit_") and n.name != "emit_raw" else None)
        seqs = ev.whole(f)
        widths = {tuple(l[5:] for l, _ in s) for s in seqs}
        rep.check(widths == {(w,)}, "encoder-width", f.loc, "write_impl(%s)" % t, "emits %s instead of one %s" % (sorted(widths), w))
        if t not in (LABEL,):
            for s in seqs:
                for _, n in s:
                    if n.args:
                        refs = [x for x in n.args[0].walk() if x.k == "ref" and x.decl == f.params[0].id]
                        rep.check(bool(refs), "encoder-width", n.loc, "write_impl(%s) value" % t, "the emitted value is not the operand")
        if t in (LABEL, MEM):
            lst = "label_refs_" if t == LABEL else "module_refs_"
            evs = Events(prog, lambda fn, n: "ref" if n.k == "call" and n.name in ("emplace_back", "push_back") and n.obj is not None
                         and n.obj.k == "member" and n.obj.name == lst else
                         ("emit" if n.k == "call" and n.q.startswith("tiro::BinaryWriter::emit_") and n.name != "emit_raw" else None))
            for s in evs.whole(f):
                lab = [l for l, _ in s]
                rep.check(lab == ["ref", "emit"], "encoder-width", f.loc, "write_impl(%s) reference" % t,
                          "the position of the operand must be recorded in %s before it is emitted (found %s)" % (lst, lab))
    for t in set(WIDTH) | {OP}:
        rep.check(t in got, "encoder-width", "src/bytecode/writer.cpp", "write_impl(%s) exists" % t, "no write_impl for operand type %s" % t)
    rep.require("encoder", 60, "writer methods")


def decoder(prog, rep, spec):
    f = prog.find("tiro::BytecodeReader::read")
    sw = [s for s in switches(f) if s.enum == OP]
    if len(sw) != 1:
        raise AnalysisBroken("opcode switch in BytecodeReader::read not found")
    sw = sw[0]
    ev = Events(prog, lambda fn, n: n.name[5:] if n.k == "call" and n.q.startswith("tiro::CheckedBinaryReader::read_") and n.name != "read_raw" else None)
    eng = Engine(prog)
    stop = {sw.blk.id}
    # opcode byte is validated before the switch
    g = eng.guards(f)
    facts = Facts(g.at(sw.cond))
    p = ctx_of(f).path(sw.cond)
    rep.check(any(x[0] == "t" and "valid_opcode(" in x[1] for x in facts.f), "decoder", sw.cond.loc, "opcode validated", "the opcode is decoded without valid_opcode() having accepted it")
    for name, fields in spec.items():
        blk = sw.cases.get(OP + "::" + name)
        if blk is None:
            rep.bad("decoder", f.loc, "%s case" % name, "opcode %s is not decoded" % name)
            continue
        seqs = ev.from_block(f, blk, stop)
        want = tuple(WIDTH[t] for _, t in fields)
        full = longest(seqs)
        labels = tuple(l for l, _ in full)
        if not rep.check(labels == want, "decoder", f.loc, "%s reads" % name, "reads (%s) but the operands are (%s)" % (", ".join(labels), ", ".join(want))):
            continue
        bad = [s for s in seqs if tuple(l for l, _ in s) not in (want, ())]
        rep.check(not bad, "decoder", f.loc, "%s partial reads" % name, "some path reads only %s" % [[l for l, _ in s] for s in bad])
        # position of reads in the record
        ctor = None
        region = reach(f, blk, stop)
        for b in region:
            for e in f.cfg.blocks[b].elems:
                if isinstance(e, list):
                    continue
                n = f.nodes[e]
                if n is not None and n.k == "call" and n.d.get("ck") == "ctor" and n.d.get("cls", "").startswith("tiro::BytecodeInstr::") and \
                        n.d["cls"] != "tiro::BytecodeInstr::" + name and len(n.args) != 1:
                    rep.bad("decoder", n.loc, "%s record" % name, "decoding %s builds %s" % (name, n.d["cls"]))
                if n is not None and n.k == "call" and n.d.get("ck") == "ctor" and n.d.get("cls") == "tiro::BytecodeInstr::" + name:
                    if len(n.args) == len(fields) and not (len(n.args) == 1 and bare(n.args[0].type) == n.d["cls"]):
                        ctor = n
        if fields:
            tops = [n for _, n in full]
            if ctor is None:
                inits = [f.nodes[e] for b in region for e in f.cfg.blocks[b].elems if not isinstance(e, list) and f.nodes[e] is not None
                         and f.nodes[e].k == "init" and bare(f.nodes[e].type) == "tiro::BytecodeInstr::" + name]
                ctor = inits[0] if inits else None
            if ctor is None:
                rep.note("decoder: construction of %s not found, operand positions not compared" % name)
            else:
                args = ctor.args if ctor.k == "call" else ctor.children
                for i, a in enumerate(args):
                    o = origin(f, a)
                    if o in tops and len([t for t in tops if t is o]) == 1:
                        rep.check(tops.index(o) == i, "decoder", ctor.loc, "%s.%s" % (name, fields[i][0]),
                                  "field %d ('%s') receives the value of read number %d" % (i, fields[i][0], tops.index(o)))
                    elif o is not None and o.k in ("lit", "zero"):
                        rep.bad("decoder", ctor.loc, "%s.%s" % (name, fields[i][0]), "field is filled with a constant")
            # bounds
            total = sum(SIZE[w] for w in want)
            first = full[0][1]
            fa = Facts(g.at(first))
            low = lower(fa, "remaining()")
            rep.check(low is not None and low >= total, "decoder-bounds", first.loc, "%s operand size" % name,
                      "%d operand bytes are read but only %s are known to remain" % (total, low))
    rep.require("decoder", 100, "decoded instructions")


def lower(fa, suffix):
    best = None
    for x in fa.f:
        if x[0] == "cmp" and x[3].endswith(suffix) and x[1] in ("<=", "<", "==") and re.match(r"^\d+$", x[2]):
            v = int(x[2]) + (1 if x[1] == "<" else 0)
            best = v if best is None else max(best, v)
        elif x[0] == "cmp" and x[1] == "==" and x[2].endswith(suffix) and re.match(r"^\d+$", x[3]):
            best = max(best or 0, int(x[3]))
    return best


def reach(f, start, stop):
    seen = set()
    st = [start]
    while st:
        b = st.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        st.extend(s for s in f.cfg.blocks[b].succ if s >= 0)
    return seen


def formatter(prog, rep, spec):
    visitors = {}
    for f in prog.fns.values():
        if not f.name.startswith("visit_") or not f.relfile.startswith("src/bytecode/") or not f.params:
            continue
        t = bare(f.params[0].type)
        if not t.startswith("tiro::BytecodeInstr::"):
            continue
        if "FormatVisitor" not in f.q and "InstructionVisitor" not in f.q:
            continue
        visitors.setdefault(f.q.rsplit("::", 1)[0], {})[t.rsplit("::", 1)[1]] = f
    if len(visitors) < 2:
        raise AnalysisBroken("instruction formatters not found")
    for vq, m in visitors.items():
        for name, fields in spec.items():
            f = m.get(name)
            if f is None:
                rep.bad("formatter", vq, "%s formatted" % name, "%s has no handler for %s" % (vq, name))
                continue
            order = []
            for n in f.walk():
                if n.k == "member" and n.d.get("cls") == "tiro::BytecodeInstr::" + name:
                    order.append(n)
            # arguments of the format call in order
            got = []
            for c in f.calls():
                if c.name == "format" and c.args:
                    for a in c.args[1:]:
                        ms = [x.name for x in (a.walk() if a is not None else ()) if x.k == "member" and x.d.get("cls") == "tiro::BytecodeInstr::" + name]
                        if not ms and a is not None:
                            o = origin(f, a)
                            ms = [x.name for x in (o.walk() if o is not None else ()) if x.k == "member" and x.d.get("cls") == "tiro::BytecodeInstr::" + name]
                        got.extend(ms[:1])
            want = [n for n, _ in fields]
            rep.check(got == want, "formatter", f.loc, "%s fields in %s" % (name, "disassembler" if "Disassembler" in vq else "format"),
                      "prints (%s) instead of (%s)" % (", ".join(got), ", ".join(want)))
    rep.require("formatter", 120, "formatted instructions")


READS = {"tiro::vm::BytecodeInterpreter::read_local": "local", "tiro::vm::BytecodeInterpreter::read_u32": "u32",
         "tiro::vm::BytecodeInterpreter::read_i64": "i64", "tiro::vm::BytecodeInterpreter::read_f64": "f64"}


def interpreter(prog, rep, spec):
    f = prog.find("tiro::vm::BytecodeInterpreter::run")
    sw = [s for s in switches(f) if s.enum == OP]
    if len(sw) != 1:
        raise AnalysisBroken("opcode switch in BytecodeInterpreter::run not found")
    sw = sw[0]
    ev = Events(prog, lambda fn, n: READS.get(n.q) if n.k == "call" else None)
    eng = Engine(prog)
    g = eng.guards(f)
    c = ctx_of(f)
    stop = {sw.blk.id}
    arith_names = set(ARITH.values()) | {"compare", "equal"}
    for name, fields in spec.items():
        blk = sw.cases.get(OP + "::" + name)
        if blk is None:
            rep.bad("interpreter", f.loc, "%s case" % name, "opcode %s is not executed" % name)
            continue
        region = reach(f, blk, stop)
        # the code after the switch is common to all cases
        common = None
        seqs = ev.from_block(f, blk, stop)
        want = tuple("local" if t == REG else WIDTH[t] for _, t in fields)
        full = longest(seqs)
        labels = tuple(l for l, _ in full)
        if not full and want and throws_only(f, blk):
            rep.note("interpreter: %s is not implemented" % name)
            continue
        if not rep.check(labels == want, "interpreter", f.loc, "%s reads" % name, "reads (%s) but the operands are (%s)" % (", ".join(labels), ", ".join(want))):
            continue
        for s in seqs:
            ls = tuple(l for l, _ in s)
            if ls != want and ls != want[:len(ls)]:
                rep.bad("interpreter", f.loc, "%s reads on every path" % name, "a path reads (%s)" % ", ".join(ls))
        tops = [n for _, n in full]
        uses = {}
        if len(set(t.id for t in tops)) == len(tops):
            for (fld, t), n in zip(fields, tops):
                uses[fld] = refs_to(f, n)
        outs = OUTPUTS.get(name, ["target"] if ("target", REG) in fields else [])
        for (fld, t), n in zip(fields, tops):
            rs = uses.get(fld)
            if rs is None:
                continue
            if t == REG:
                written = [r for r in rs if is_written(f, r)]
                passed = [r for r in rs if r is not n]
                if fld in outs:
                    rep.check(bool(written) or escapes(f, rs), "interpreter-use", n.loc, "%s.%s" % (name, fld), "the target register is never written")
                else:
                    rep.check(not written, "interpreter-use", n.loc, "%s.%s" % (name, fld), "an input register is overwritten")
            else:
                kinds = set()
                for r in rs:
                    p = r.parent
                    while p is not None and p.k == "cast":
                        p = p.parent
                    if p is not None and p.k == "call" and p.q:
                        kinds.add(p.name)
                special = {"get_member": MEM, "set_member": MEM, "set_pc": OFF, "arg": PARAM, "local": REG}
                for kname, kt in special.items():
                    if kname in kinds:
                        rep.check(t == kt, "interpreter-use", n.loc, "%s.%s" % (name, fld), "operand of type %s is passed to %s" % (t, kname))
        # operations
        calls = [f.nodes[e] for b in region for e in f.cfg.blocks[b].elems if not isinstance(e, list) and f.nodes[e] is not None and f.nodes[e].k == "call"
                 and not in_assert(f.nodes[e])]
        own = [x for x in calls if x.q.startswith("tiro::vm::")]

        def arg_fields(call, start):
            r = []
            for a in call.args[start:]:
                o = origin(f, a) if a is not None else None
                r.append(next((fl for fl, rs in uses.items() if o is rs[0] or any(a is x for x in rs)), None))
            return r

        if name in ARITH or name in CMP or name in ("Eq", "NEq"):
            exp = ARITH.get(name) or ("compare" if name in CMP else "equal")
            found = {x.name for x in own if x.q.rsplit("::", 1)[0] == "tiro::vm" and x.name in arith_names}
            if found:
                rep.check(found == {exp}, "interpreter-operation", f.loc, name, "executes %s instead of %s" % (sorted(found), exp))
                for x in own:
                    if x.q == "tiro::vm::" + exp:
                        got = arg_fields(x, 0 if exp == "equal" else 1)
                        inputs = [fl for fl, t in fields if fl not in outs]
                        if None not in got:
                            rep.check(got == inputs, "interpreter-operation", x.loc, name + " operands", "operands are passed in the order %s" % got)
            else:
                rep.note("interpreter: operation of %s not resolved" % name)
        if name in CMP:
            for n in nodes_in(f, region):
                if n.k == "bin" and n.op in ("<", "<=", ">", ">=", "==", "!=") and n.child(1) is not None and n.child(1).value == 0 and not in_assert(n) \
                        and n.child(0).type in ("int", "const int", "long"):
                    rep.check(n.op == CMP[name], "interpreter-operation", n.loc, name + " relation", "tests the result with '%s 0'" % n.op)
        if name in ("Eq", "NEq", "LNot"):
            tgt = "equal" if name != "LNot" else "is_truthy"
            for x in calls:
                if x.name == "get_boolean" and x.args:
                    neg = 0
                    n = x.args[0]
                    while n is not None and (n.k == "cast" or n.k == "un" and n.op == "!"):
                        neg += n.k == "un"
                        n = n.child(0)
                    n = origin(f, n)
                    if n is not None and n.k == "call" and n.name == tgt:
                        rep.check(neg % 2 == (0 if name == "Eq" else 1), "interpreter-operation", x.loc, name + " polarity", "the result is negated wrongly")
        if name in CALLS:
            cn, argf = CALLS[name]
            hits = [x for x in own if x.name == cn]
            others = {x.name for x in own if x.name in {v[0] for v in CALLS.values()} and x.d.get("cls", "").endswith("TypeSystem")} - {cn}
            rep.check(not others, "interpreter-operation", f.loc, name, "executes %s instead of %s" % (sorted(others), cn))
            for x in hits:
                got = arg_fields(x, 1)
                for i, (gf, wf) in enumerate(zip(got, argf)):
                    if gf is not None and wf != "name":
                        rep.check(gf == wf, "interpreter-operation", x.loc, "%s operand %s" % (name, wf), "argument %d is '%s'" % (i + 1, gf))
        if name in JUMPS:
            pred, pol = JUMPS[name]
            for x in calls:
                if x.q == "tiro::vm::BytecodeInterpreter::set_pc":
                    fa = Facts(g.at(x))
                    t = [y for y in fa.f if y[0] in ("t", "f") and re.search(r"\b%s\(" % pred, y[1]) and name in c_text(y, f)]
                    allf = [y for y in fa.f if y[0] in ("t", "f") and re.search(r"\b%s\(" % pred, y[1])]
                    if allf:
                        rep.check(all((y[0] == "t") == pol for y in allf), "interpreter-operation", x.loc, name + " condition",
                                  "jumps when %s is %s" % (pred, "true" if not pol else "false"))
                    else:
                        rep.bad("interpreter-operation", x.loc, name + " condition", "jump is not guarded by %s" % pred)
        if name == "Jmp":
            pass
        if name in ("LoadTrue", "LoadFalse"):
            for x in calls:
                if x.name == "get_boolean" and x.args and x.args[0] is not None and x.args[0].value is not None:
                    rep.check(bool(x.args[0].value) == (name == "LoadTrue"), "interpreter-operation", x.loc, name, "loads the wrong constant")
    # primitive reads of the interpreter
    for q, w in (("read_u32", 4), ("read_i64", 8), ("read_f64", 8)):
        h = prog.find("tiro::vm::BytecodeInterpreter::" + q)
        rb = [x for x in h.calls() if strip_targs(x.q).endswith("read_big_endian")]
        ok = len(rb) == 1 and (rb[0].type in ({4: ("unsigned int",), 8: ("unsigned long", "long", "double")}[w]))
        rep.check(ok, "byte-codec", h.loc, "interpreter " + q, "must decode one big endian value of %d bytes" % w)
    h = prog.find("tiro::vm::BytecodeInterpreter::read_local")
    s = Events(prog, lambda fn, n: READS.get(n.q) if n.k == "call" and n.fn is h else None).whole(h)
    rep.check(tuple(l for l, _ in longest(s)) == ("u32",), "byte-codec", h.loc, "interpreter read_local", "must read one register number")
    rep.require("interpreter", 60, "opcodes")
    rep.require("interpreter-use", 80, "operands")
    rep.require("interpreter-operation", 20, "operations")


def c_text(y, f):
    return ""


def nodes_in(f, region):
    seen = set()
    for b in region:
        for e in f.cfg.blocks[b].elems:
            if isinstance(e, list) or f.nodes[e] is None:
                continue
            for n in f.nodes[e].walk():
                if n.id not in seen:
                    seen.add(n.id)
                    yield n


def throws_only(f, blk):
    """the case ends in a function that does not return, possibly after fallthrough"""
    seen = set()
    b = blk
    while b not in seen:
        seen.add(b)
        x = f.cfg.blocks[b]
        if x.noreturn:
            return True
        ss = [s for s in x.succ if s >= 0]
        if len(ss) != 1:
            return False
        b = ss[0]
    return False


def is_written(f, r):
    p = r.parent
    child = r
    while p is not None and p.k == "cast":
        child, p = p, p.parent
    if p is None:
        return False
    if p.k == "call" and p.obj is child and p.name in ("set",):
        return True
    if p.k == "call" and p.d.get("ck") == "op" and p.op == "*" and p.obj is child:
        q = p.parent
        return q is not None and (q.k == "bin" and q.op == "=" and q.child(0) is p or q.k == "call" and q.op == "=" and q.obj is p)
    return False


def escapes(f, rs):
    """passed on to another function that may write it"""
    for r in rs:
        p = r.parent
        child = r
        while p is not None and (p.k == "cast" or p.k == "call" and p.d.get("ck") == "ctor" and len(p.args) == 1):
            child, p = p, p.parent
        if p is not None and p.k == "call" and any(a is child for a in p.args):
            pt = p.d.get("pt") or []
            i = [j for j, a in enumerate(p.args) if a is child][0]
            if i < len(pt) and ("MutHandle" in pt[i] or "OutHandle" in pt[i]):
                return True
    return False


def tables(prog, rep, spec, ops):
    vals = {v: n for n, v in ops}
    f = prog.find("tiro::valid_opcode")
    t = table(prog, f, range(256))
    for v in range(256):
        if t[v] is None:
            raise AnalysisBroken("valid_opcode cannot be tabulated")
        rep.check(bool(t[v]) == (v in vals) and t[v] != NORETURN, "opcode-table", f.loc, "valid_opcode(%d)" % v,
                  "returns %s for %s" % (t[v], vals.get(v, "a value that is no opcode")))
    for q, ty in (("tiro::references_offset", OFF), ("tiro::references_module", MEM)):
        f = prog.find(q)
        t = table(prog, f, vals)
        for v, n in vals.items():
            if t[v] is None:
                raise AnalysisBroken("%s cannot be tabulated" % q)
            has = any(x == ty for _, x in spec[n])
            rep.check(bool(t[v]) == has, "opcode-table", f.loc, "%s(%s)" % (f.name, n), "returns %s but the instruction %s such an operand" % (bool(t[v]), "has" if has else "has no"))
    f = next((f for f in prog.by_q["tiro::to_string"] if f.params and bare(f.params[0].type) == OP), None)
    if f is None:
        raise AnalysisBroken("to_string(BytecodeOp) not found")
    t = table(prog, f, vals)
    inv = {}
    for v, n in vals.items():
        rep.check(isinstance(t[v], str) and t[v] != NORETURN, "opcode-table", f.loc, "to_string(%s)" % n, "opcode has no name")
        if isinstance(t[v], str):
            if t[v] in inv:
                rep.bad("opcode-table", f.loc, "to_string(%s) unique" % n, "%s and %s have the same name" % (n, inv[t[v]]))
            inv[t[v]] = n


def codec(prog, rep):
    T = {"u8": "unsigned char", "u16": "unsigned short", "u32": "unsigned int", "u64": "unsigned long"}
    for w in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f64"):
        f = prog.find("tiro::CheckedBinaryReader::read_" + w)
        raw = Events(prog, lambda fn, n: n.type if n.k == "call" and strip_targs(n.q) == "tiro::CheckedBinaryReader::read_raw" else None)
        s = raw.whole(f)
        size = SIZE[w]
        ok = all(len(x) == 1 for x in s)
        lab = {width_of(fn_.type if hasattr(fn_, "type") else "") for x in s for _, fn_ in x}
        # the call chain may pass through read_uN; the instantiation of read_raw decides the width
        inst = set()
        todo = [f]
        seen = set()
        while todo:
            h = todo.pop()
            if h.usr in seen:
                continue
            seen.add(h.usr)
            for cl in h.calls():
                if strip_targs(cl.q) == "tiro::CheckedBinaryReader::read_raw":
                    inst.add(cl.type)
                elif cl.q.startswith("tiro::CheckedBinaryReader::"):
                    todo.extend(prog.targets(cl))
        want = T["u" + str(size * 8)]
        rep.check(ok and inst <= {want, {"unsigned char": "signed char"}.get(want, want)} and inst, "byte-codec", f.loc, "read_" + w, "reads %s" % sorted(inst))
    eng = Engine(prog)
    for f in prog.by_q["tiro::CheckedBinaryReader::read_raw"]:
        size = {"unsigned char": 1, "unsigned short": 2, "unsigned int": 4, "unsigned long": 8}.get(f.ret)
        if size is None:
            continue
        cps = [c for c in f.calls() if c.name in ("memcpy", "__builtin_memcpy")]
        for c in cps:
            fa = Facts(eng.guards(f).at(c))
            low = lower(fa, "remaining()")
            if low is None:
                for x in fa.f:
                    if x[0] == "cmp" and x[1] == "<=" and x[2] == str(size):
                        low = size
            rep.check(low is not None and low >= size, "byte-codec", c.loc, "read_raw<%s> bounds" % f.ret, "copies %d bytes without checking remaining()" % size)
            n = c.args[2].value if c.args[2] is not None else None
            if n is not None:
                rep.check(n == size, "byte-codec", c.loc, "read_raw<%s> size" % f.ret, "copies %s bytes" % n)
        adv = [n for n in f.walk() if n.k == "bin" and n.op == "+=" and n.child(0).k == "member" and n.child(0).name == "pos_"]
        for n in adv:
            if n.child(1).value is not None:
                rep.check(n.child(1).value == size, "byte-codec", n.loc, "read_raw<%s> advance" % f.ret, "advances by %s" % n.child(1).value)
        rep.check(len(adv) == 1, "byte-codec", f.loc, "read_raw<%s> cursor" % f.ret, "the cursor must advance exactly once")
        rep.check(any(c.q.endswith("be_to_host") for c in f.calls()), "byte-codec", f.loc, "read_raw<%s> byte order" % f.ret, "does not convert from big endian")
    for nm in ("emit_raw", "overwrite_raw"):
        for f in prog.by_q["tiro::BinaryWriter::" + nm]:
            rep.check(any(c.q.endswith("host_to_be") for c in f.calls()), "byte-codec", f.loc, "%s<%s> byte order" % (nm, f.params[-1].type), "does not convert to big endian")
    for w in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f64"):
        for pre in ("emit_", "overwrite_"):
            for f in prog.by_q["tiro::BinaryWriter::" + pre + w]:
                for c in f.calls():
                    if c.name in ("emit_raw", "overwrite_raw"):
                        pt = (c.d.get("pt") or [""])[-1]
                        rep.check(pt == T["u" + str(SIZE[w] * 8)], "byte-codec", c.loc, pre + w, "writes a value of type %s" % pt)
    # finish(): every label reference is patched with the position of its definition
    f = prog.find("tiro::BytecodeWriter::finish")
    pa = [c for c in f.calls() if c.q == "tiro::BinaryWriter::overwrite_u32"]
    rep.check(len(pa) >= 1, "encoder-width", f.loc, "label references patched", "finish() does not patch the label references")
    rep.require("byte-codec", 40, "primitive reads and writes")


def width_of(t):
    return t
