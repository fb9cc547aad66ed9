"""The binary format, as a reference grammar (WebAssembly 3.0, chapter 5).

Written from the specification; the analysis compares the decoder with it.  Not executed: spec.py.
Rules fail as early as the format allows, so a decoder may notice an error later than the rule does.
"""

@p("C01")
@ret("u32")
def u32():
    r = 0
    b = byte()
    r = r | ((b & 0x7F) << 0)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 7)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 14)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 21)
    if b < 0x80:
        return r
    b = byte()
    if b >= 0x80:
        fail("integer representation too long")
    if b >= 16:
        fail("integer too large")
    return r | (b << 28)


@p("C01")
@ret("u64")
def u64():
    r = 0
    b = byte()
    r = r | ((b & 0x7F) << 0)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 7)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 14)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 21)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 28)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 35)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 42)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 49)
    if b < 0x80:
        return r
    b = byte()
    r = r | ((b & 0x7F) << 56)
    if b < 0x80:
        return r
    b = byte()
    if b >= 0x80:
        fail("integer representation too long")
    if b >= 2:
        fail("integer too large")
    return r | (b << 63)


@p("C02")
@ret("i32")
def i32():
    r = 0
    b = byte()
    r = r | ((b & 0x7F) << 0)
    if b < 0x80:
        return sext(r, 7)
    b = byte()
    r = r | ((b & 0x7F) << 7)
    if b < 0x80:
        return sext(r, 14)
    b = byte()
    r = r | ((b & 0x7F) << 14)
    if b < 0x80:
        return sext(r, 21)
    b = byte()
    r = r | ((b & 0x7F) << 21)
    if b < 0x80:
        return sext(r, 28)
    b = byte()
    if b >= 0x80:
        fail("integer representation too long")
    if b >= 8:
        if b < 120:
            fail("integer does not fit")
    return sext(r | (b << 28), 35)


@p("C02")
@ret("i64")
def i64():
    r = 0
    b = byte()
    r = r | ((b & 0x7F) << 0)
    if b < 0x80:
        return sext(r, 7)
    b = byte()
    r = r | ((b & 0x7F) << 7)
    if b < 0x80:
        return sext(r, 14)
    b = byte()
    r = r | ((b & 0x7F) << 14)
    if b < 0x80:
        return sext(r, 21)
    b = byte()
    r = r | ((b & 0x7F) << 21)
    if b < 0x80:
        return sext(r, 28)
    b = byte()
    r = r | ((b & 0x7F) << 28)
    if b < 0x80:
        return sext(r, 35)
    b = byte()
    r = r | ((b & 0x7F) << 35)
    if b < 0x80:
        return sext(r, 42)
    b = byte()
    r = r | ((b & 0x7F) << 42)
    if b < 0x80:
        return sext(r, 49)
    b = byte()
    r = r | ((b & 0x7F) << 49)
    if b < 0x80:
        return sext(r, 56)
    b = byte()
    r = r | ((b & 0x7F) << 56)
    if b < 0x80:
        return sext(r, 63)
    b = byte()
    if b >= 0x80:
        fail("integer representation too long")
    if b >= 1:
        if b < 127:
            fail("integer does not fit")
    return sext(r | (b << 63), 70)


@p("C02")
@ret("s33")
def s33():
    r = 0
    b = byte()
    r = r | ((b & 0x7F) << 0)
    if b < 0x80:
        return sext(r, 7)
    b = byte()
    r = r | ((b & 0x7F) << 7)
    if b < 0x80:
        return sext(r, 14)
    b = byte()
    r = r | ((b & 0x7F) << 14)
    if b < 0x80:
        return sext(r, 21)
    b = byte()
    r = r | ((b & 0x7F) << 21)
    if b < 0x80:
        return sext(r, 28)
    b = byte()
    if b >= 0x80:
        fail("integer representation too long")
    if b >= 16:
        if b < 112:
            fail("integer does not fit")
    return sext(r | (b << 28), 35)



@p("C03")
@ret("bytes")
def bytevec():
    n = u32()
    b = bytes(n)
    return b


@p("C04")
@ret("String")
def name():
    b = bytevec()
    if not utf8(b):
        fail("name is not UTF-8")
    return string(b)


@p("C09")
@ret("f32")
def f32():
    b0 = byte()
    b1 = byte()
    b2 = byte()
    b3 = byte()
    return float32(b0 | (b1 << 8) | (b2 << 16) | (b3 << 24))


@p("C09")
@ret("f64")
def f64():
    b0 = byte()
    b1 = byte()
    b2 = byte()
    b3 = byte()
    b4 = byte()
    b5 = byte()
    b6 = byte()
    b7 = byte()
    return float64(b0 | (b1 << 8) | (b2 << 16) | (b3 << 24) | (b4 << 32) | (b5 << 40) | (b6 << 48) | (b7 << 56))


@p("C09")
@ret("TypeIdx")
def typeidx():
    x = u32()
    return TypeIdx(x)


@p("C09")
@ret("FuncIdx")
def funcidx():
    x = u32()
    return FuncIdx(x)


@p("C09")
@ret("TableIdx")
def tableidx():
    x = u32()
    return TableIdx(x)


@p("C09")
@ret("MemIdx")
def memidx():
    x = u32()
    return MemIdx(x)


@p("C09")
@ret("GlobalIdx")
def globalidx():
    x = u32()
    return GlobalIdx(x)


@p("C09")
@ret("ElemIdx")
def elemidx():
    x = u32()
    return ElemIdx(x)


@p("C09")
@ret("DataIdx")
def dataidx():
    x = u32()
    return DataIdx(x)


@p("C09")
@ret("LocalIdx")
def localidx():
    x = u32()
    return LocalIdx(x)


@p("C09")
@ret("LabelIdx")
def labelidx():
    x = u32()
    return LabelIdx(x)


@p("C09")
@ret("TagIdx")
def tagidx():
    x = u32()
    return TagIdx(x)


# ---- types ---------------------------------------------------------------------------------------

@p("C10")
@ret("AbsHeapType")
def absheap():
    b = byte()
    if b == 0x69:
        return AbsHeapType.Exn
    if b == 0x6A:
        return AbsHeapType.Array
    if b == 0x6B:
        return AbsHeapType.Struct
    if b == 0x6C:
        return AbsHeapType.I31
    if b == 0x6D:
        return AbsHeapType.Eq
    if b == 0x6E:
        return AbsHeapType.Any
    if b == 0x6F:
        return AbsHeapType.Extern
    if b == 0x70:
        return AbsHeapType.Func
    if b == 0x71:
        return AbsHeapType.None_
    if b == 0x72:
        return AbsHeapType.NoExtern
    if b == 0x73:
        return AbsHeapType.NoFunc
    if b == 0x74:
        return AbsHeapType.NoExn
    fail("not an abstract heap type")


@p("C10")
@ret("HeapType")
def heaptype():
    b = peek()
    if 0x69 <= b:
        if b <= 0x74:
            t = absheap()
            return HeapType.Ht(t)
    x = s33()
    if x < 0:
        fail("negative type index")
    return HeapType.TypeIdx(x)


@p("C10")
@ret("RefType")
def reftype():
    b = peek()
    if b == 0x63:
        b = byte()
        h = heaptype()
        return RefType(nullable=True, ht=h)
    if b == 0x64:
        b = byte()
        h = heaptype()
        return RefType(nullable=False, ht=h)
    t = absheap()
    return RefType(nullable=True, ht=HeapType.Ht(t))


@p("C10")
@ret("ValType")
def valtype():
    b = peek()
    if b == 0x7F:
        b = byte()
        return ValType.Num(NumType.Int32)
    if b == 0x7E:
        b = byte()
        return ValType.Num(NumType.Int64)
    if b == 0x7D:
        b = byte()
        return ValType.Num(NumType.Float32)
    if b == 0x7C:
        b = byte()
        return ValType.Num(NumType.Float64)
    if b == 0x7B:
        b = byte()
        return ValType.Vec(VecType.V128)
    r = reftype()
    return ValType.Ref(r)


@p("C11")
@ret("Mut")
def mut():
    b = byte()
    if b == 0x00:
        return Mut.Const
    if b == 0x01:
        return Mut.Var
    fail("not a mutability")


@p("C11")
@ret("StorageType")
def storagetype():
    b = peek()
    if b == 0x78:
        b = byte()
        return StorageType.PackType(PackType.I8)
    if b == 0x77:
        b = byte()
        return StorageType.PackType(PackType.I16)
    t = valtype()
    return StorageType.ValType(t)


@p("C11")
@ret("FieldType")
def fieldtype():
    t = storagetype()
    m = mut()
    return FieldType(m, t)


@p("C11")
@ret("list:valtype")
def resulttype():
    r = list_of(valtype)
    return r


@p("C11")
@ret("CompType")
def comptype():
    b = byte()
    if b == 0x5E:
        f = fieldtype()
        return CompType.Array(f)
    if b == 0x5F:
        fs = list_of(fieldtype)
        return CompType.Struct(fs)
    if b == 0x60:
        ps = resulttype()
        rs = resulttype()
        return CompType.Func(parameters=ps, results=rs)
    fail("not a composite type")


@p("C11")
@ret("SubType")
def subtype():
    b = peek()
    if b == 0x4F:
        b = byte()
        s = list_of(typeidx)
        c = comptype()
        return SubType(is_final=True, supertypes=s, comptype=c)
    if b == 0x50:
        b = byte()
        s = list_of(typeidx)
        c = comptype()
        return SubType(is_final=False, supertypes=s, comptype=c)
    c = comptype()
    return SubType(is_final=True, supertypes=[], comptype=c)


@p("C11")
@ret("RecType")
def rectype():
    b = peek()
    if b == 0x4E:
        b = byte()
        s = list_of(subtype)
        return RecType(s)
    s = subtype()
    return RecType([s])


@p("C12")
@ret("Limits")
def limits():
    b = byte()
    if b == 0x00:
        n = u64()
        return Limits(address_type=AddrType.I32, min=n, max=None)
    if b == 0x01:
        n = u64()
        m = u64()
        return Limits(address_type=AddrType.I32, min=n, max=Some(m))
    if b == 0x04:
        n = u64()
        return Limits(address_type=AddrType.I64, min=n, max=None)
    if b == 0x05:
        n = u64()
        m = u64()
        return Limits(address_type=AddrType.I64, min=n, max=Some(m))
    fail("not a limits flag")


@p("C12")
@ret("MemType")
def memtype():
    l = limits()
    return MemType(l)


@p("C12")
@ret("TableType")
def tabletype():
    r = reftype()
    l = limits()
    return TableType(reftype=r, limits=l)


@p("C12")
@ret("GlobalType")
def globaltype():
    t = valtype()
    m = mut()
    return GlobalType(m, t)


@p("C12")
@ret("TagType")
def tagtype():
    b = byte()
    if b != 0x00:
        fail("not a tag type")
    x = typeidx()
    return TagType(x)


@p("C13")
@ret("ExternType")
def externtype():
    b = byte()
    if b == 0x00:
        x = typeidx()
        return ExternType.Func(x)
    if b == 0x01:
        x = tabletype()
        return ExternType.Table(x)
    if b == 0x02:
        x = memtype()
        return ExternType.Mem(x)
    if b == 0x03:
        x = globaltype()
        return ExternType.Global(x)
    if b == 0x04:
        x = tagtype()
        return ExternType.Tag(x)
    fail("not an external type")


# ---- instructions --------------------------------------------------------------------------------

@p("C09")
@ret("Memarg")
def memarg():
    n = u32()
    if n < 64:
        o = u64()
        return Memarg(mem_idx=MemIdx(0), align=n, offset=o)
    if n < 128:
        m = memidx()
        o = u64()
        return Memarg(mem_idx=m, align=n - 64, offset=o)
    fail("not a memory argument")


@p("C09")
@ret("LaneIdx")
def laneidx():
    b = byte()
    return LaneIdx(b)


@p("C09")
@ret("raw16")
def raw16():
    b = bytes(16)
    return b


@p("C09")
@ret("lanes16")
def lanes16():
    b = bytes(16)
    return lanes(b)


@p("C09")
@ret("RefType")
def nonnull_ref():
    h = heaptype()
    return RefType(nullable=False, ht=h)


@p("C09")
@ret("RefType")
def null_ref():
    h = heaptype()
    return RefType(nullable=True, ht=h)


@p("C09")
@ret("BlockType")
def blocktype():
    b = peek()
    if b == 0x40:
        b = byte()
        return BlockType.Empty
    if 0x7B <= b:
        if b <= 0x7F:
            t = valtype()
            return BlockType.T(t)
    if 0x69 <= b:
        if b <= 0x74:
            t = valtype()
            return BlockType.T(t)
    if b == 0x63:
        t = valtype()
        return BlockType.T(t)
    if b == 0x64:
        t = valtype()
        return BlockType.T(t)
    x = s33()
    if x < 0:
        fail("negative type index")
    return BlockType.I(x)


@p("C09")
@ret("Catch")
def catch():
    b = byte()
    if b == 0x00:
        x = tagidx()
        l = labelidx()
        return Catch.Catch(x, l)
    if b == 0x01:
        x = tagidx()
        l = labelidx()
        return Catch.CatchRef(x, l)
    if b == 0x02:
        l = labelidx()
        return Catch.CatchAll(l)
    if b == 0x03:
        l = labelidx()
        return Catch.CatchAllRef(l)
    fail("not a catch clause")


@p("C09")
@ret("bool", "bool")
def castop():
    b = byte()
    if b == 0x00:
        return 0, 0
    if b == 0x01:
        return 1, 0
    if b == 0x02:
        return 0, 1
    if b == 0x03:
        return 1, 1
    fail("not a cast operator")


@p("C05")
@tags(Ins=["Instruction"], End=[], Else=[])
def instr():
    op = byte()
    if op == 0x0B:
        mark("C08")
        return "End",
    if op == 0x05:
        mark("C08")
        return "Else",
    if op == 0x02:
        mark("C08")
        bt = blocktype()
        r = []
        while True:
            x = instr()
            if is_(x, "End"):
                return "Ins", Instruction.Block(bt, r)
            if is_(x, "Else"):
                fail("else outside if")
            r = r + [x._0]
    if op == 0x03:
        mark("C08")
        bt = blocktype()
        r = []
        while True:
            x = instr()
            if is_(x, "End"):
                return "Ins", Instruction.Loop(bt, r)
            if is_(x, "Else"):
                fail("else outside if")
            r = r + [x._0]
    if op == 0x04:
        mark("C08")
        bt = blocktype()
        r = []
        while True:
            x = instr()
            if is_(x, "End"):
                return "Ins", Instruction.If(bt, r, None)
            if is_(x, "Else"):
                break
            r = r + [x._0]
        q = []
        while True:
            x = instr()
            if is_(x, "End"):
                return "Ins", Instruction.If(bt, r, Some(q))
            if is_(x, "Else"):
                fail("second else")
            q = q + [x._0]
    if op == 0x1F:
        mark("C08")
        bt = blocktype()
        c = list_of(catch)
        r = []
        while True:
            x = instr()
            if is_(x, "End"):
                return "Ins", Instruction.TryTable(bt, c, r)
            if is_(x, "Else"):
                fail("else outside if")
            r = r + [x._0]
    if op == 0x1B:
        return "Ins", Instruction.Select(None)
    if op == 0x1C:
        ts = list_of(valtype)
        return "Ins", Instruction.Select(Some(ts))
    if op == 0xFB:
        mark("C06")
        sub = u32()
        if sub == 24:
            n = castop()
            l = labelidx()
            h1 = heaptype()
            h2 = heaptype()
            return "Ins", Instruction.BrOnCast(l, RefType(nullable=n._0, ht=h1), RefType(nullable=n._1, ht=h2))
        if sub == 25:
            n = castop()
            l = labelidx()
            h1 = heaptype()
            h2 = heaptype()
            return "Ins", Instruction.BrOnCastFail(l, RefType(nullable=n._0, ht=h1), RefType(nullable=n._1, ht=h2))
        dispatch(sub, "FB", "Ins")
        fail("unknown opcode after 0xFB")
    if op == 0xFC:
        mark("C06")
        sub = u32()
        dispatch(sub, "FC", "Ins")
        fail("unknown opcode after 0xFC")
    if op == 0xFD:
        mark("C07")
        sub = u32()
        dispatch(sub, "FD", "Ins")
        fail("unknown opcode after 0xFD")
    dispatch(op, "ONE", "Ins")
    fail("unknown opcode")


@p("C08")
@ret("vec:Instruction", "=hasdata(0)")
def expr():
    r = []
    while True:
        x = instr()
        if is_(x, "End"):
            return r, hasdata(r)
        if is_(x, "Else"):
            fail("else outside if")
        r = r + [x._0]


@p("C08")
@ret("vec:Instruction")
def initexpr():
    e = expr()
    return e._0


# ---- entries of the sections ---------------------------------------------------------------------

@p("C13")
@ret("Import")
def import_():
    m = name()
    n = name()
    t = externtype()
    return Import(module_name=m, item_name=n, extern_type=t)


@p("C13")
@ret("Export")
def export():
    n = name()
    b = byte()
    if b > 0x04:
        fail("not an export kind")
    x = u32()
    if b == 0x00:
        return Export(name=n, externidx=ExternIdx.Func(FuncIdx(x)))
    if b == 0x01:
        return Export(name=n, externidx=ExternIdx.Table(TableIdx(x)))
    if b == 0x02:
        return Export(name=n, externidx=ExternIdx.Mem(MemIdx(x)))
    if b == 0x03:
        return Export(name=n, externidx=ExternIdx.Global(GlobalIdx(x)))
    return Export(name=n, externidx=ExternIdx.Tag(TagIdx(x)))


@p("C13")
@ret("Table")
def table():
    b = peek()
    if b == 0x40:
        b = byte()
        z = byte()
        if z != 0x00:
            fail("reserved byte of a table is not zero")
        t = tabletype()
        e = expr()
        return Table(t, e._0)
    t = tabletype()
    return Table(t, [Instruction.RefNull(t.reftype.ht)])


@p("C13")
@ret("Global")
def global_():
    t = globaltype()
    e = expr()
    return Global(type=t, init=e._0)


@p("C14")
@ret("RefType")
def elemkind():
    b = byte()
    if b != 0x00:
        fail("not an element kind")
    return RefType(nullable=True, ht=HeapType.Ht(AbsHeapType.Func))


@p("C14")
@ret("Elem")
def elem():
    n = u32()
    if n == 0:
        e = expr()
        y = list_of(funcidx)
        return Elem(type=RefType(nullable=False, ht=HeapType.Ht(AbsHeapType.Func)), init=reffuncs(y), mode=ElemMode.Active(table=TableIdx(0), offset=e._0))
    if n == 1:
        k = elemkind()
        y = list_of(funcidx)
        return Elem(type=k, init=reffuncs(y), mode=ElemMode.Passive)
    if n == 2:
        x = tableidx()
        e = expr()
        k = elemkind()
        y = list_of(funcidx)
        return Elem(type=k, init=reffuncs(y), mode=ElemMode.Active(table=x, offset=e._0))
    if n == 3:
        k = elemkind()
        y = list_of(funcidx)
        return Elem(type=k, init=reffuncs(y), mode=ElemMode.Declare)
    if n == 4:
        e = expr()
        i = list_of(initexpr)
        return Elem(type=RefType(nullable=True, ht=HeapType.Ht(AbsHeapType.Func)), init=i, mode=ElemMode.Active(table=TableIdx(0), offset=e._0))
    if n == 5:
        t = reftype()
        i = list_of(initexpr)
        return Elem(type=t, init=i, mode=ElemMode.Passive)
    if n == 6:
        x = tableidx()
        e = expr()
        t = reftype()
        i = list_of(initexpr)
        return Elem(type=t, init=i, mode=ElemMode.Active(table=x, offset=e._0))
    if n == 7:
        t = reftype()
        i = list_of(initexpr)
        return Elem(type=t, init=i, mode=ElemMode.Declare)
    fail("not an element segment")


@p("C15")
@ret("Data")
def data():
    n = u32()
    if n == 0:
        e = expr()
        b = bytevec()
        return Data(init=b, mode=DataMode.Active(memory=MemIdx(0), offset=e._0))
    if n == 1:
        b = bytevec()
        return Data(init=b, mode=DataMode.Passive)
    if n == 2:
        m = memidx()
        e = expr()
        b = bytevec()
        return Data(init=b, mode=DataMode.Active(memory=m, offset=e._0))
    fail("not a data segment")


@p("C16")
@ret("u32", "ValType")
def local(total):
    n = u32()
    if total + n > 0xFFFFFFFF:
        fail("too many locals")
    t = valtype()
    return n, t


@p("C16")
@opt(window=("C16",))
@ret("list:local", "vec:Instruction", "=hasdata(1)")
def code():
    size = u32()
    with window(size):
        n = u32()
        i = 0
        total = 0
        ls = []
        while i < n:
            x = local(total)
            total = total + x._0
            ls = ls + [x]
            i = i + 1
        e = expr()
    return ls, e._0, e._1


@p("C23")
@opt(window=("C23", "C20"))
@ret("CustomSection")
def custom():
    n = name()
    c = rest()
    return CustomSection(name=n, contents=c)


# ---- modules -------------------------------------------------------------------------------------

@p("C17")
@ret()
def preamble():
    b0 = byte()
    if b0 != 0x00:
        fail("not a module")
    b1 = byte()
    if b1 != 0x61:
        fail("not a module")
    b2 = byte()
    if b2 != 0x73:
        fail("not a module")
    b3 = byte()
    if b3 != 0x6D:
        fail("not a module")
    b4 = byte()
    if b4 != 0x01:
        fail("unknown version")
    b5 = byte()
    if b5 != 0x00:
        fail("unknown version")
    b6 = byte()
    if b6 != 0x00:
        fail("unknown version")
    b7 = byte()
    if b7 != 0x00:
        fail("unknown version")
    return


@p("C18")
@opt(window=("C20",), field_props={"version": ("C17",), "parsed_section_kinds": ("C23",), "section_headers": ("C23",), "custom_sections": ("C23", "C18"), "funcs": ("C16", "C18", "C21"), "data_count": ("C18", "C22")})
@ret("Module")
def module():
    preamble()
    kinds = []
    headers = []
    customs = []
    types = []
    imports = []
    funcs = []
    tables = []
    mems = []
    tags = []
    globals = []
    exports = []
    elems = []
    datas = []
    start = None
    count = None
    seencode = 0
    flag = 0
    while True:
        mark("C24")
        id = byte_or_eof()
        if id < 0:
            break
        mark("C18")
        if id > 13:
            fail("unknown section id")
        mark("C19")
        last = lastrank(kinds)
        if id == 1:
            if last > 1:
                fail("Type section out of order")
            if last == 1:
                fail("second Type section")
        if id == 2:
            if last > 2:
                fail("Import section out of order")
            if last == 2:
                fail("second Import section")
        if id == 3:
            if last > 3:
                fail("Function section out of order")
            if last == 3:
                fail("second Function section")
        if id == 4:
            if last > 4:
                fail("Table section out of order")
            if last == 4:
                fail("second Table section")
        if id == 5:
            if last > 5:
                fail("Memory section out of order")
            if last == 5:
                fail("second Memory section")
        if id == 6:
            if last > 7:
                fail("Global section out of order")
            if last == 7:
                fail("second Global section")
        if id == 7:
            if last > 8:
                fail("Export section out of order")
            if last == 8:
                fail("second Export section")
        if id == 8:
            if last > 9:
                fail("Start section out of order")
            if last == 9:
                fail("second Start section")
        if id == 9:
            if last > 10:
                fail("Element section out of order")
            if last == 10:
                fail("second Element section")
        if id == 10:
            if last > 12:
                fail("Code section out of order")
            if last == 12:
                fail("second Code section")
        if id == 11:
            if last > 13:
                fail("Data section out of order")
            if last == 13:
                fail("second Data section")
        if id == 12:
            if last > 11:
                fail("DataCount section out of order")
            if last == 11:
                fail("second DataCount section")
        if id == 13:
            if last > 6:
                fail("Tag section out of order")
            if last == 6:
                fail("second Tag section")
        mark("C20")
        size = u32()
        if id == 0:
            mark("C20")
            with window(size):
                mark("C23")
                c = custom()
            customs = customs + [c]
            headers = headers + [SectionHeader(kind=SectionKind.Custom, size=size)]
        if id == 1:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(rectype)
            types = x
            headers = headers + [SectionHeader(kind=SectionKind.Type, size=size)]
            kinds = kinds + [SectionKind.Type]
        if id == 2:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(import_)
            imports = x
            headers = headers + [SectionHeader(kind=SectionKind.Import, size=size)]
            kinds = kinds + [SectionKind.Import]
        if id == 3:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(typeidx)
            mark("C21")
            funcs = mkfuncs(x)
            headers = headers + [SectionHeader(kind=SectionKind.Function, size=size)]
            kinds = kinds + [SectionKind.Function]
        if id == 4:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(table)
            tables = x
            headers = headers + [SectionHeader(kind=SectionKind.Table, size=size)]
            kinds = kinds + [SectionKind.Table]
        if id == 5:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(memtype)
            mems = x
            headers = headers + [SectionHeader(kind=SectionKind.Memory, size=size)]
            kinds = kinds + [SectionKind.Memory]
        if id == 6:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(global_)
            globals = x
            headers = headers + [SectionHeader(kind=SectionKind.Global, size=size)]
            kinds = kinds + [SectionKind.Global]
        if id == 7:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(export)
            exports = x
            headers = headers + [SectionHeader(kind=SectionKind.Export, size=size)]
            kinds = kinds + [SectionKind.Export]
        if id == 8:
            mark("C20")
            with window(size):
                mark("C18")
                x = funcidx()
            start = Some(x)
            headers = headers + [SectionHeader(kind=SectionKind.Start, size=size)]
            kinds = kinds + [SectionKind.Start]
        if id == 9:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(elem)
            elems = x
            headers = headers + [SectionHeader(kind=SectionKind.Element, size=size)]
            kinds = kinds + [SectionKind.Element]
        if id == 10:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(code)
            seencode = 1
            mark("C21")
            if len(x) != len(funcs):
                fail("number of code entries differs from the number of functions")
            mark("C22")
            flag = flag | anydata(x)
            mark("C16")
            funcs = fill(funcs, x)
            headers = headers + [SectionHeader(kind=SectionKind.Code, size=size)]
            kinds = kinds + [SectionKind.Code]
        if id == 11:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(data)
            mark("C22")
            if is_some(count):
                if unwrap(count) != len(x):
                    fail("number of data segments differs from the data count")
            datas = x
            headers = headers + [SectionHeader(kind=SectionKind.Data, size=size)]
            kinds = kinds + [SectionKind.Data]
        if id == 12:
            mark("C20")
            with window(size):
                mark("C18")
                x = u32()
            count = Some(x)
            headers = headers + [SectionHeader(kind=SectionKind.DataCount, size=size)]
            kinds = kinds + [SectionKind.DataCount]
        if id == 13:
            mark("C20")
            with window(size):
                mark("C18")
                x = list_of(tagtype)
            tags = x
            headers = headers + [SectionHeader(kind=SectionKind.Tag, size=size)]
            kinds = kinds + [SectionKind.Tag]
    mark("C21")
    if seencode == 0:
        if len(funcs) != 0:
            fail("functions without code section")
    mark("C22")
    if is_some(count):
        if unwrap(count) != len(datas):
            fail("number of data segments differs from the data count")
    if flag:
        if not is_some(count):
            fail("data index without data count section")
    mark("C18")
    return Module(version=[1, 0, 0, 0], parsed_section_kinds=kinds, section_headers=headers, custom_sections=customs, types=types, funcs=funcs, tables=tables, mems=mems, globals=globals, elems=elems, data_count=count, datas=datas, start=start, imports=imports, exports=exports, tags=tags)


ONE = """
0x00 Unreachable
0x01 Nop
0x08 Throw tagidx
0x0A ThrowRef
0x0C Br labelidx
0x0D BrIf labelidx
0x0E BrTable list:labelidx labelidx
0x0F Return
0x10 Call funcidx
0x11 CallIndirect typeidx tableidx -> 1 0
0x12 ReturnCall funcidx
0x13 ReturnCallIndirect typeidx tableidx -> 1 0
0x14 CallRef typeidx
0x15 ReturnCallRef typeidx
0x1A Drop
0x20 LocalGet localidx
0x21 LocalSet localidx
0x22 LocalTee localidx
0x23 GlobalGet globalidx
0x24 GlobalSet globalidx
0x25 TableGet tableidx
0x26 TableSet tableidx
0x28 I32Load memarg
0x29 I64Load memarg
0x2A F32Load memarg
0x2B F64Load memarg
0x2C I32Load8s memarg
0x2D I32Load8u memarg
0x2E I32Load16s memarg
0x2F I32Load16u memarg
0x30 I64Load8s memarg
0x31 I64Load8u memarg
0x32 I64Load16s memarg
0x33 I64Load16u memarg
0x34 I64Load32s memarg
0x35 I64Load32u memarg
0x36 I32Store memarg
0x37 I64Store memarg
0x38 F32Store memarg
0x39 F64Store memarg
0x3A I32Store8 memarg
0x3B I32Store16 memarg
0x3C I64Store8 memarg
0x3D I64Store16 memarg
0x3E I64Store32 memarg
0x3F MemorySize memidx
0x40 MemoryGrow memidx
0x41 I32Const i32
0x42 I64Const i64
0x43 F32Const f32
0x44 F64Const f64
0x45 I32Eqz
0x46 I32Eq
0x47 I32Ne
0x48 I32LtS
0x49 I32LtU
0x4A I32GtS
0x4B I32GtU
0x4C I32LeS
0x4D I32LeU
0x4E I32GeS
0x4F I32GeU
0x50 I64Eqz
0x51 I64Eq
0x52 I64Ne
0x53 I64LtS
0x54 I64LtU
0x55 I64GtS
0x56 I64GtU
0x57 I64LeS
0x58 I64LeU
0x59 I64GeS
0x5A I64GeU
0x5B F32Eq
0x5C F32Ne
0x5D F32Lt
0x5E F32Gt
0x5F F32Le
0x60 F32Ge
0x61 F64Eq
0x62 F64Ne
0x63 F64Lt
0x64 F64Gt
0x65 F64Le
0x66 F64Ge
0x67 I32Clz
0x68 I32Ctz
0x69 I32Popcnt
0x6A I32Add
0x6B I32Sub
0x6C I32Mul
0x6D I32DivS
0x6E I32DivU
0x6F I32RemS
0x70 I32RemU
0x71 I32And
0x72 I32Or
0x73 I32Xor
0x74 I32Shl
0x75 I32ShrS
0x76 I32ShrU
0x77 I32Rotl
0x78 I32Rotr
0x79 I64Clz
0x7A I64Ctz
0x7B I64Popcnt
0x7C I64Add
0x7D I64Sub
0x7E I64Mul
0x7F I64DivS
0x80 I64DivU
0x81 I64RemS
0x82 I64RemU
0x83 I64And
0x84 I64Or
0x85 I64Xor
0x86 I64Shl
0x87 I64ShrS
0x88 I64ShrU
0x89 I64Rotl
0x8A I64Rotr
0x8B F32Abs
0x8C F32Neg
0x8D F32Ceil
0x8E F32Floor
0x8F F32Trunc
0x90 F32Nearest
0x91 F32Sqrt
0x92 F32Add
0x93 F32Sub
0x94 F32Mul
0x95 F32Div
0x96 F32Min
0x97 F32Max
0x98 F32Copysign
0x99 F64Abs
0x9A F64Neg
0x9B F64Ceil
0x9C F64Floor
0x9D F64Trunc
0x9E F64Nearest
0x9F F64Sqrt
0xA0 F64Add
0xA1 F64Sub
0xA2 F64Mul
0xA3 F64Div
0xA4 F64Min
0xA5 F64Max
0xA6 F64Copysign
0xA7 I32WrapI64
0xA8 I32TruncF32S
0xA9 I32TruncF32U
0xAA I32TruncF64S
0xAB I32TruncF64U
0xAC I64ExtendI32S
0xAD I64ExtendI32U
0xAE I64TruncF32S
0xAF I64TruncF32U
0xB0 I64TruncF64S
0xB1 I64TruncF64U
0xB2 F32ConvertI32S
0xB3 F32ConvertI32U
0xB4 F32ConvertI64S
0xB5 F32ConvertI64U
0xB6 F32DemoteF64
0xB7 F64ConvertI32S
0xB8 F64ConvertI32U
0xB9 F64ConvertI64S
0xBA F64ConvertI64U
0xBB F64PromoteF32
0xBC I32ReinterpretF32
0xBD I64ReinterpretF64
0xBE F32ReinterpretI32
0xBF F64ReinterpretI64
0xC0 I32Extend8S
0xC1 I32Extend16S
0xC2 I64Extend8S
0xC3 I64Extend16S
0xC4 I64Extend32S
0xD0 RefNull heaptype
0xD1 RefIsNull
0xD2 RefFunc funcidx
0xD3 RefEq
0xD4 RefAsNonNull
0xD5 BrOnNull labelidx
0xD6 BrOnNonNull labelidx
"""

FB = """
0 StructNew typeidx
1 StructNewDefault typeidx
2 StructGet typeidx u32
3 StructGetS typeidx u32
4 StructGetU typeidx u32
5 StructSet typeidx u32
6 ArrayNew typeidx
7 ArrayNewDefault typeidx
8 ArrayNewFixed typeidx u32
9 ArrayNewData typeidx dataidx
10 ArrayNewElem typeidx elemidx
11 ArrayGet typeidx
12 ArrayGetS typeidx
13 ArrayGetU typeidx
14 ArraySet typeidx
15 ArrayLen
16 ArrayFill typeidx
17 ArrayCopy typeidx typeidx
18 ArrayInitData typeidx dataidx
19 ArrayInitElem typeidx elemidx
20 RefTest nonnull_ref
21 RefTest null_ref
22 RefCast nonnull_ref
23 RefCast null_ref
26 AnyConvertExtern
27 ExternConvertAny
28 RefI31
29 I31GetS
30 I31GetU
"""

FC = """
0 I32TruncSatF32S
1 I32TruncSatF32U
2 I32TruncSatF64S
3 I32TruncSatF64U
4 I64TruncSatF32S
5 I64TruncSatF32U
6 I64TruncSatF64S
7 I64TruncSatF64U
8 MemoryInit dataidx memidx -> 1 0
9 DataDrop dataidx
10 MemoryCopy memidx memidx
11 MemoryFill memidx
12 TableInit elemidx tableidx -> 1 0
13 ElemDrop elemidx
14 TableCopy tableidx tableidx
15 TableGrow tableidx
16 TableSize tableidx
17 TableFill tableidx
"""

FD = """
0 V128Load memarg
1 V128Load8x8S memarg
2 V128Load8x8U memarg
3 V128Load16x4S memarg
4 V128Load16x4U memarg
5 V128Load32x2S memarg
6 V128Load32x2U memarg
7 V128Load8Splat memarg
8 V128Load16Splat memarg
9 V128Load32Splat memarg
10 V128Load64Splat memarg
11 V128Store memarg
12 V128Const raw16
13 I8x16Shuffle lanes16
14 I8x16Swizzle
15 I8x16Splat
16 I16x8Splat
17 I32x4Splat
18 I64x2Splat
19 F32x4Splat
20 F64x2Splat
21 I8x16ExtractLaneS laneidx
22 I8x16ExtractLaneU laneidx
23 I8x16ReplaceLane laneidx
24 I16x8ExtractLaneS laneidx
25 I16x8ExtractLaneU laneidx
26 I16x8ReplaceLane laneidx
27 I32x4ExtractLane laneidx
28 I32x4ReplaceLane laneidx
29 I64x2ExtractLane laneidx
30 I64x2ReplaceLane laneidx
31 F32x4ExtractLane laneidx
32 F32x4ReplaceLane laneidx
33 F64x2ExtractLane laneidx
34 F64x2ReplaceLane laneidx
35 I8x16Eq
36 I8x16Ne
37 I8x16LtS
38 I8x16LtU
39 I8x16GtS
40 I8x16GtU
41 I8x16LeS
42 I8x16LeU
43 I8x16GeS
44 I8x16GeU
45 I16x8Eq
46 I16x8Ne
47 I16x8LtS
48 I16x8LtU
49 I16x8GtS
50 I16x8GtU
51 I16x8LeS
52 I16x8LeU
53 I16x8GeS
54 I16x8GeU
55 I32x4Eq
56 I32x4Ne
57 I32x4LtS
58 I32x4LtU
59 I32x4GtS
60 I32x4GtU
61 I32x4LeS
62 I32x4LeU
63 I32x4GeS
64 I32x4GeU
65 F32x4Eq
66 F32x4Ne
67 F32x4Lt
68 F32x4Gt
69 F32x4Le
70 F32x4Ge
71 F64x2Eq
72 F64x2Ne
73 F64x2Lt
74 F64x2Gt
75 F64x2Le
76 F64x2Ge
77 V128Not
78 V128And
79 V128AndNot
80 V128Or
81 V128Xor
82 V128Bitselect
83 V128AnyTrue
84 V128Load8Lane memarg laneidx
85 V128Load16Lane memarg laneidx
86 V128Load32Lane memarg laneidx
87 V128Load64Lane memarg laneidx
88 V128Store8Lane memarg laneidx
89 V128Store16Lane memarg laneidx
90 V128Store32Lane memarg laneidx
91 V128Store64Lane memarg laneidx
92 V128Load32Zero memarg
93 V128Load64Zero memarg
94 F32x4DemoteF64x2Zero
95 F64x2PromoteLowF32x4
96 I8x16Abs
97 I8x16Neg
98 I8x16Popcnt
99 I8x16AllTrue
100 I8x16Bitmask
101 I8x16NarrowI16x8S
102 I8x16NarrowI16x8U
103 F32x4Ceil
104 F32x4Floor
105 F32x4Trunc
106 F32x4Nearest
107 I8x16Shl
108 I8x16ShrS
109 I8x16ShrU
110 I8x16Add
111 I8x16AddSatS
112 I8x16AddSatU
113 I8x16Sub
114 I8x16SubSatS
115 I8x16SubSatU
116 F64x2Ceil
117 F64x2Floor
118 I8x16MinS
119 I8x16MinU
120 I8x16MaxS
121 I8x16MaxU
122 F64x2Trunc
123 I8x16AvgrU
124 I16x8ExtaddPairwiseI8x16S
125 I16x8ExtaddPairwiseI8x16U
126 I32x4ExtaddPairwiseI16x8S
127 I32x4ExtaddPairwiseI16x8U
128 I16x8Abs
129 I16x8Neg
130 I16x8Q15MulrSatS
131 I16x8AllTrue
132 I16x8Bitmask
133 I16x8NarrowI32x4S
134 I16x8NarrowI32x4U
135 I16x8ExtendLowI8x16S
136 I16x8ExtendHighI8x16S
137 I16x8ExtendLowI8x16U
138 I16x8ExtendHighI8x16U
139 I16x8Shl
140 I16x8ShrS
141 I16x8ShrU
142 I16x8Add
143 I16x8AddSatS
144 I16x8AddSatU
145 I16x8Sub
146 I16x8SubSatS
147 I16x8SubSatU
148 F64x2Nearest
149 I16x8Mul
150 I16x8MinS
151 I16x8MinU
152 I16x8MaxS
153 I16x8MaxU
155 I16x8AvgrU
156 I16x8ExtmulLowI8x16S
157 I16x8ExtmulHighI8x16S
158 I16x8ExtmulLowI8x16U
159 I16x8ExtmulHighI8x16U
160 I32x4Abs
161 I32x4Neg
163 I32x4AllTrue
164 I32x4Bitmask
167 I32x4ExtendLowI16x8S
168 I32x4ExtendHighI16x8S
169 I32x4ExtendLowI16x8U
170 I32x4ExtendHighI16x8U
171 I32x4Shl
172 I32x4ShrS
173 I32x4ShrU
174 I32x4Add
177 I32x4Sub
181 I32x4Mul
182 I32x4MinS
183 I32x4MinU
184 I32x4MaxS
185 I32x4MaxU
186 I32x4DotI16x8S
188 I32x4ExtmulLowI16x8S
189 I32x4ExtmulHighI16x8S
190 I32x4ExtmulLowI16x8U
191 I32x4ExtmulHighI16x8U
192 I64x2Abs
193 I64x2Neg
195 I64x2AllTrue
196 I64x2Bitmask
199 I64x2ExtendLowI32x4S
200 I64x2ExtendHighI32x4S
201 I64x2ExtendLowI32x4U
202 I64x2ExtendHighI32x4U
203 I64x2Shl
204 I64x2ShrS
205 I64x2ShrU
206 I64x2Add
209 I64x2Sub
213 I64x2Mul
214 I64x2Eq
215 I64x2Ne
216 I64x2LtS
217 I64x2GtS
218 I64x2LeS
219 I64x2GeS
220 I64x2ExtmulLowI32x4S
221 I64x2ExtmulHighI32x4S
222 I64x2ExtmulLowI32x4U
223 I64x2ExtmulHighI32x4U
224 F32x4Abs
225 F32x4Neg
227 F32x4Sqrt
228 F32x4Add
229 F32x4Sub
230 F32x4Mul
231 F32x4Div
232 F32x4Min
233 F32x4Max
234 F32x4PMin
235 F32x4PMax
236 F64x2Abs
237 F64x2Neg
239 F64x2Sqrt
240 F64x2Add
241 F64x2Sub
242 F64x2Mul
243 F64x2Div
244 F64x2Min
245 F64x2Max
246 F64x2PMin
247 F64x2PMax
248 I32x4TruncSatF32x4S
249 I32x4TruncSatF32x4U
250 F32x4ConvertI32x4S
251 F32x4ConvertI32x4U
252 I32x4TruncSatF64x2SZero
253 I32x4TruncSatF64x2UZero
254 F64x2ConvertLowI32x4S
255 F64x2ConvertLowI32x4U
256 I8x16RelaxedSwizzle
257 I32x4RelaxedTruncF32x4S
258 I32x4RelaxedTruncF32x4U
259 I32x4RelaxedTruncF64x2SZero
260 I32x4RelaxedTruncF64x2UZero
261 F32x4RelaxedMAdd
262 F32x4RelaxedNMAdd
263 F64x2RelaxedMAdd
264 F64x2RelaxedNMAdd
265 I8x16RelaxedLaneSelect
266 I16x8RelaxedLaneSelect
267 I32x4RelaxedLaneSelect
268 I64x2RelaxedLaneSelect
269 F32x4RelaxedMin
270 F32x4RelaxedMax
271 F64x2RelaxedMin
272 F64x2RelaxedMax
273 I16x8RelaxedQ15MulrS
274 I16x8RelaxedDotSI8x16
275 I32x4RelaxedDotAddSI16x8
"""
