// Stand-in for the runtime of @aptre/protobuf-es-lite 0.4: scalar fields,
// messages and oneofs, as the generated code of this repository uses them.
export const ScalarType = { DOUBLE: 1, FLOAT: 2, INT64: 3, UINT64: 4, INT32: 5, FIXED64: 6, FIXED32: 7, BOOL: 8, STRING: 9, BYTES: 12, UINT32: 13, SFIXED32: 15, SFIXED64: 16, SINT32: 17, SINT64: 18 }
export const MethodKind = { 0: 'Unary', 1: 'ServerStreaming', 2: 'ClientStreaming', 3: 'BiDiStreaming', Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3 }
export const MethodIdempotency = { 1: 'NoSideEffects', 2: 'Idempotent', NoSideEffects: 1, Idempotent: 2 }

const camel = (s) => s.replace(/_([a-z0-9])/g, (_, c) => c.toUpperCase())

function varint(out, n) {
  if (typeof n === 'number' && n >= 0 && n < 2 ** 31) {
    while (n > 127) { out.push((n & 127) | 128); n >>>= 7 }
    out.push(n)
    return
  }
  let v = BigInt.asUintN(64, BigInt(n))
  while (v > 127n) { out.push(Number(v & 127n) | 128); v >>= 7n }
  out.push(Number(v))
}

class Out {
  constructor() { this.parts = []; this.cur = [] }
  push(x) { this.cur.push(x) }
  raw(b) {
    if (b.length < 64) { for (const x of b) this.cur.push(x); return }
    this.parts.push(this.cur, b)
    this.cur = []
  }
  done() {
    if (this.parts.length === 0) return Uint8Array.from(this.cur)
    this.parts.push(this.cur)
    const res = new Uint8Array(this.parts.reduce((n, p) => n + p.length, 0))
    let i = 0
    for (const p of this.parts) { res.set(p, i); i += p.length }
    return res
  }
}

class Reader {
  constructor(b) { this.b = b; this.i = 0 }
  varint() {
    let v = 0n
    for (let s = 0n; s < 70n; s += 7n) {
      if (this.i >= this.b.length) throw new RangeError('premature EOF')
      const c = this.b[this.i++]
      v |= BigInt(c & 127) << s
      if (c < 128) return BigInt.asUintN(64, v)
    }
    throw new Error('invalid varint')
  }
  bytes() {
    const n = Number(this.varint())
    if (this.i + n > this.b.length) throw new RangeError('premature EOF')
    this.i += n
    return this.b.subarray(this.i - n, this.i)
  }
  skip(n) {
    if (this.i + n > this.b.length) throw new RangeError('premature EOF')
    this.i += n
  }
}

function zero(f) {
  switch (f.T) {
    case ScalarType.BOOL: return false
    case ScalarType.STRING: return ''
    case ScalarType.BYTES: return new Uint8Array(0)
    default: return 0
  }
}

function isZero(f, v) {
  if (v == null) return true
  if (f.T === ScalarType.BYTES) return v.length === 0
  return v === false || v === '' || v === 0
}

function encodeField(out, f, v) {
  if (f.kind === 'message') {
    varint(out, (f.no << 3) | 2)
    const b = f.T().toBinary(v)
    varint(out, b.length)
    out.raw(b)
    return
  }
  switch (f.T) {
    case ScalarType.BOOL:
      varint(out, f.no << 3)
      out.push(v ? 1 : 0)
      return
    case ScalarType.STRING:
    case ScalarType.BYTES: {
      if (f.T === ScalarType.STRING && typeof v !== 'string') throw new Error(`cannot encode field ${f.name}: not a string`)
      if (f.T === ScalarType.BYTES && !(v instanceof Uint8Array)) throw new Error(`cannot encode field ${f.name}: not bytes`)
      const b = f.T === ScalarType.STRING ? new TextEncoder().encode(v) : v
      varint(out, (f.no << 3) | 2)
      varint(out, b.length)
      out.raw(b)
      return
    }
    default:
      varint(out, f.no << 3)
      varint(out, v)
  }
}

function decodeField(r, f, wt, old) {
  if (f.kind === 'message') {
    if (wt !== 2) throw new Error('unexpected wire type')
    return f.T().fromBinary(r.bytes(), old)
  }
  switch (f.T) {
    case ScalarType.STRING:
      if (wt !== 2) throw new Error('unexpected wire type')
      return new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(r.bytes())
    case ScalarType.BYTES:
      if (wt !== 2) throw new Error('unexpected wire type')
      return r.bytes()
    case ScalarType.BOOL:
      if (wt !== 0) throw new Error('unexpected wire type')
      return r.varint() !== 0n
    default:
      if (wt !== 0) throw new Error('unexpected wire type')
      return Number(BigInt.asIntN(32, r.varint()))
  }
}

export function createMessageType(def) {
  const fields = def.fields.map((f) => ({ ...f, local: camel(f.name), one: f.oneof && camel(f.oneof) }))
  const t = {
    typeName: def.typeName,
    fields,
    create(partial) {
      const m = {}
      if (partial == null) return m
      for (const f of fields) {
        if (f.one) {
          if (partial[f.one]?.case != null) m[f.one] = { case: partial[f.one].case, value: partial[f.one].value }
        } else if (partial[f.local] != null) {
          m[f.local] = f.kind === 'message' ? f.T().create(partial[f.local]) : partial[f.local]
        }
      }
      return m
    },
    createComplete(partial) {
      const m = t.create(partial)
      for (const f of fields) {
        if (f.one) m[f.one] ??= { case: undefined }
        else if (f.kind !== 'message') m[f.local] ??= zero(f)
      }
      return m
    },
    clone(m) { return t.fromBinary(t.toBinary(m)) },
    toBinary(m) {
      const out = new Out()
      for (const f of fields) {
        if (f.one) {
          if (m?.[f.one]?.case === f.local) encodeField(out, f, m[f.one].value)
        } else if (f.kind === 'message' ? m?.[f.local] != null : !isZero(f, m?.[f.local])) {
          encodeField(out, f, m[f.local])
        }
      }
      return out.done()
    },
    fromBinary(b, old) {
      const m = old ?? t.createComplete()
      if (b == null) return m
      const r = new Reader(b)
      while (r.i < b.length) {
        const tag = Number(r.varint() & 0xffffffffn)
        const no = tag >>> 3
        const wt = tag & 7
        if (no === 0) throw new Error('illegal tag')
        const f = fields.find((x) => x.no === no)
        if (f == null) {
          if (wt === 0) r.varint()
          else if (wt === 1) r.skip(8)
          else if (wt === 2) r.bytes()
          else if (wt === 5) r.skip(4)
          else throw new Error('cant skip wire type ' + wt)
          continue
        }
        if (f.one) {
          const was = m[f.one]?.case === f.local ? m[f.one].value : undefined
          m[f.one] = { case: f.local, value: decodeField(r, f, wt, was) }
        } else {
          m[f.local] = decodeField(r, f, wt, m[f.local])
        }
      }
      return m
    },
    equals(a, b) { return Buffer.compare(t.toBinary(a), t.toBinary(b)) === 0 },
    toJson(m) { return m },
    toJsonString(m) { return JSON.stringify(m) },
  }
  return t
}

export const Empty = createMessageType({ typeName: 'google.protobuf.Empty', fields: [] })

// localName returns the name of a descriptor in the generated code.
const reserved = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with yield as async implements interface let package private protected public static Object bigint number boolean string object globalThis Uint8Array Partial'.split(' '))
export function localName(desc) {
  const safe = (s) => (reserved.has(s) ? s + '$' : s)
  switch (desc.kind) {
    case 'rpc': return safe(desc.name[0].toLowerCase() + desc.name.slice(1))
    case 'service':
    case 'message': {
      const pkg = desc.file.proto.package
      return safe((pkg ? desc.typeName.slice(pkg.length + 1) : desc.typeName).replaceAll('.', '_'))
    }
  }
  throw new Error('localName: ' + desc.kind)
}
