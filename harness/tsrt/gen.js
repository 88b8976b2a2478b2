// Generated code: the plugin of the repository, what it generates is compiled,
// looked at and used.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import * as srpc from 'repo:index.ts'
import { generateTs } from 'repo:cmd/protoc-gen-es-starpc/typescript.ts'
import * as lite from './shims/protobuf-es-lite.js'
import { createSchema, createImportSymbol } from './shims/protoplugin.js'
import { pushable } from './shims/it-pushable.js'

const RUNTIME = '@aptre/protobuf-es-lite'
let ts
const KINDS = ['Unary', 'ServerStreaming', 'ClientStreaming', 'BiDiStreaming']

// describe returns the descriptors of the case.
function describe(c) {
  const files = c.files.map((f) => ({ kind: 'file', name: f.name, proto: { package: f.package, syntax: 'proto3', name: f.name + '.proto' }, services: [], messages: [] }))
  const full = (f, n) => (f.proto.package ? f.proto.package + '.' : '') + n
  const msgs = c.msgs.map((m, i) => {
    const file = files[m.file]
    const d = { kind: 'message', name: m.name.split('.').at(-1), typeName: full(file, m.name), file, index: i, toString: () => 'message ' + full(file, m.name) }
    d.symbol = createImportSymbol(lite.localName(d), '/' + file.name + '.pb.js')
    file.messages.push(d)
    return d
  })
  const empty = { kind: 'message', name: 'Empty', typeName: 'google.protobuf.Empty', symbol: createImportSymbol('Empty', RUNTIME), index: -1 }
  const msg = (i) => (i < 0 ? empty : msgs[i])
  for (const s of c.services) {
    const file = files[s.file]
    const d = { kind: 'service', name: s.name, typeName: full(file, s.name), file, comment: s.comment, deprecated: false, methods: [], toString: () => 'service ' + full(file, s.name) }
    d.getComments = () => ({ leading: s.comment, leadingDetached: [] })
    for (const m of s.methods ?? []) {
      d.methods.push({ kind: 'rpc', name: m.name, parent: d, methodKind: m.kind, input: msg(m.in), output: msg(m.out), idempotency: m.idem || undefined, comment: m.comment, deprecated: false, getComments: () => ({ leading: m.comment, leadingDetached: [] }), toString: () => `rpc ${d.typeName}.${m.name}` })
    }
    file.services.push(d)
  }
  return { files, msgs, msg }
}

const LITE_D = `
export type Message<T> = { [P in keyof T]?: T[P] }
export interface MessageType<T> {
  readonly typeName: string
  create(partial?: Partial<T>): T
  toBinary(m: Message<T>): Uint8Array
  fromBinary(b: Uint8Array): T
}
export declare enum MethodKind { Unary = 0, ServerStreaming = 1, ClientStreaming = 2, BiDiStreaming = 3 }
export declare enum MethodIdempotency { NoSideEffects = 1, Idempotent = 2 }
export interface Empty { empty__?: never }
export declare const Empty: MessageType<Empty>
`

// programs are compiled with the sources of the libraries parsed once.
const parsed = new Map()
function diagnostics(texts, roots, repo) {
  const opts = { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, strict: true, noEmit: true, skipLibCheck: true, lib: ['lib.es2022.d.ts', 'lib.dom.d.ts'], types: [] }
  const host = ts.createCompilerHost(opts)
  const lib = path.dirname(ts.getDefaultLibFilePath(opts))
  const read = (f) => {
    if (f.startsWith('/gen/')) return texts.get(f)
    if (f.startsWith('/lite/')) return LITE_D
    if (f.startsWith('/its/')) return 'export type Source<T> = Iterable<T> | AsyncIterable<T>\nexport type Sink<S, R = unknown> = (s: S) => R\nexport type Transform<A, B = A> = (s: A) => B\nexport type Duplex<A, B = A, R = unknown> = { source: A; sink: Sink<B, R> }'
    if (f === '/starpc/index.d.ts') return ['definition', 'message', 'proto-rpc'].map((n) => `export * from '/starpc/${n}.js'`).join('\n')
    if (f.startsWith('/starpc/')) return fs.readFileSync(path.join(repo, 'srpc', path.basename(f)), 'utf8')
    if (f.startsWith(lib)) return fs.readFileSync(f, 'utf8')
    return undefined
  }
  host.fileExists = (f) => f.startsWith('/gen/') ? texts.has(f) : f.startsWith(lib) && fs.existsSync(f)
  host.readFile = read
  host.getSourceFile = (f, v) => {
    if (!f.startsWith('/gen/') && parsed.has(f)) return parsed.get(f)
    const t = read(f)
    if (t === undefined) return undefined
    const sf = ts.createSourceFile(f, t, v, true)
    if (!f.startsWith('/gen/')) parsed.set(f, sf)
    return sf
  }
  host.resolveModuleNames = (names, from) => names.map((n) => {
    if (n === RUNTIME) return { resolvedFileName: '/lite/index.d.ts', extension: '.d.ts' }
    if (n === 'it-stream-types') return { resolvedFileName: '/its/index.d.ts', extension: '.d.ts' }
    if (n === 'starpc') return { resolvedFileName: '/starpc/index.d.ts', extension: '.d.ts' }
    const f = (n.startsWith('/') ? n : path.posix.join(path.posix.dirname(from), n)).replace(/\.js$/, '')
    for (const e of ['.ts', '.d.ts']) {
      if (texts.has(f + e) || f.startsWith('/starpc/') && e === '.ts') return { resolvedFileName: f + e, extension: e }
    }
    return undefined
  })
  host.writeFile = () => {}
  const p = ts.createProgram(roots, opts, host)
  const res = []
  for (const r of roots) {
    const sf = p.getSourceFile(r)
    for (const d of [...p.getSyntacticDiagnostics(sf), ...p.getSemanticDiagnostics(sf)]) {
      const at = d.file && d.start !== undefined ? d.file.text.slice(d.start, d.start + 60).split('\n')[0] : ''
      res.push(`${r}: ${ts.flattenDiagnosticMessageText(d.messageText, ' ')} [${at}]`)
    }
  }
  return res
}

// use returns a file which uses the generated code as its definition says.
function use(c, file, fi, msg) {
  const lines = [`import * as g from './${path.posix.basename(file.name)}_srpc.pb.js'`, `import { MethodKind, MethodIdempotency, Empty } from '${RUNTIME}'`, `import type { ProtoRpc, ServiceDefinition, ServiceMethodDefinitions } from 'starpc'`]
  const up = path.posix.relative(path.posix.dirname('/' + file.name), '/') || '.'
  c.files.forEach((f, i) => lines.push(`import * as f${i} from '${up}/${f.name}.pb.js'`))
  lines.push(`type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends <T>() => T extends B ? 1 : 2 ? true : false`)
  lines.push(`function handler<T extends ServiceMethodDefinitions>(definition: ServiceDefinition<T>) {}`)
  const name = (m) => (m.index < 0 ? 'Empty' : `f${c.msgs[m.index].file}.${m.symbol.name}`)
  let n = 0
  const check = (a, b) => lines.push(`export const t${n++}: Eq<${a}, ${b}> = true`)
  for (const s of file.services) {
    const l = lite.localName(s)
    lines.push(`handler(g.${l}Definition)`)
    check(`typeof g.${l}Definition.typeName`, JSON.stringify(s.typeName))
    check(`typeof g.${l}ServiceName`, JSON.stringify(s.typeName))
    check(`keyof typeof g.${l}Definition.methods`, s.methods.map((m) => JSON.stringify(m.name)).join(' | ') || 'never')
    check(`keyof g.${l}`, s.methods.map((m) => JSON.stringify(m.name)).join(' | ') || 'never')
    if (s.methods.length) lines.push(`export const c${n++} = (rpc: ProtoRpc): g.${l}[] => [new g.${l}Client(rpc), new g.${l}Client(rpc, { service: 'x' }), new g.${l}Client(rpc, {})]`)
    for (const m of s.methods) {
      const d = `typeof g.${l}Definition.methods.${m.name}`
      check(`(${d})['name']`, JSON.stringify(m.name))
      check(`(${d})['kind']`, 'MethodKind.' + KINDS[m.methodKind])
      check(`(${d})['I']`, 'typeof ' + name(m.input))
      check(`(${d})['O']`, 'typeof ' + name(m.output))
      if (m.idempotency) check(`(${d})['idempotency']`, 'MethodIdempotency.' + lite.MethodIdempotency[m.idempotency])
      const stream = (x) => `AsyncIterable<${x}>`
      check(`Parameters<g.${l}['${m.name}']>`, `[request: ${m.methodKind >= 2 ? stream(name(m.input)) : name(m.input)}, abortSignal?: AbortSignal]`)
      check(`ReturnType<g.${l}['${m.name}']>`, m.methodKind & 1 ? stream(name(m.output)) : `Promise<${name(m.output)}>`)
    }
  }
  return lines.join('\n') + '\n'
}

function pair() {
  const ab = pushable({ objectMode: true })
  const ba = pushable({ objectMode: true })
  const side = (tx, rx) => ({ source: rx, sink: async (source) => { for await (const b of source) tx.push(b); tx.end() } })
  return [side(ab, ba), side(ba, ab)]
}

const timely = (p) => p.then((v) => v, (e) => 'error: ' + (e?.message ?? e))

export async function gen(c, rec) {
  ts ??= createRequire('/opt/veriftools/node/package.json')('typescript')
  const { files, msgs, msg } = describe(c)
  const schema = createSchema(files)
  generateTs(schema)
  rec.files = schema.out.map((f) => f.name)
  const texts = new Map()
  for (const f of schema.out) texts.set('/gen/' + f.name, f.render())
  if (c.show) rec.texts = Object.fromEntries(texts)
  files.forEach((f, i) => {
    let t = `import type { MessageType } from '${RUNTIME}'\n`
    for (const m of f.messages) t += `export interface ${m.symbol.name} { kind${m.index}: string }\nexport declare const ${m.symbol.name}: MessageType<${m.symbol.name}>\n`
    texts.set(`/gen/${f.name}.pb.ts`, t)
    if (f.services.length) texts.set(`/gen/${f.name}_use.ts`, use(c, f, i, msg))
  })
  if (c.types) rec.diags = diagnostics(texts, [...texts.keys()].filter((f) => /_srpc\.pb\.ts$|_use\.ts$/.test(f)), c.repo)

  // run it.
  const mods = new Map()
  const types = msgs.map((m) => lite.createMessageType({ typeName: m.typeName, fields: [{ no: m.index + 1, name: 'v', kind: 'scalar', T: lite.ScalarType.STRING }] }))
  files.forEach((f) => mods.set('/gen/' + f.name + '.pb.js', Object.fromEntries(f.messages.map((m) => [m.symbol.name, types[m.index]]))))
  const load = (fn) => {
    const js = ts.transpileModule(texts.get(fn), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 } }).outputText
    const exports = {}
    const req = (n) => {
      if (n === 'starpc') return srpc
      if (n === RUNTIME) return lite
      const m = mods.get(path.posix.join(path.posix.dirname(fn), n))
      if (m == null) throw new Error(`${fn} imports ${n}`)
      return m
    }
    new Function('require', 'exports', js)(req, exports)
    return exports
  }
  const typeOf = (t) => (t === lite.Empty ? -1 : types.indexOf(t))
  rec.services = []
  for (const [si, s] of c.services.entries()) {
    const desc = files[s.file].services.find((d) => d.name === s.name)
    const g = load('/gen/' + files[s.file].name + '_srpc.pb.ts')
    const l = lite.localName(desc)
    const def = g[l + 'Definition']
    const r = { type: def.typeName, name: g[l + 'ServiceName'], client: typeof g[l + 'Client'] === 'function', methods: [], calls: [] }
    rec.services.push(r)
    for (const [k, m] of Object.entries(def.methods)) r.methods.push({ key: k, name: m.name, in: typeOf(m.I), out: typeOf(m.O), kind: m.kind, idem: m.idempotency ?? 0 })
    if (!r.client) continue
    const override = s.override || undefined
    const opts = s.override ? { service: s.override } : s.opts ? {} : undefined

    // what the client asks of the rpc.
    let asked
    const answer = (kind, stream) => (service, method, data, signal) => {
      asked = { kind, service, method, data, signal }
      return stream ? (async function* () { yield new Uint8Array(0) })() : Promise.resolve(new Uint8Array(0))
    }
    const fake = new g[l + 'Client']({ request: answer(0, false), serverStreamingRequest: answer(1, true), clientStreamingRequest: answer(2, false), bidirectionalStreamingRequest: answer(3, true) }, opts)

    // a server with the implementation.
    const handled = []
    const impl = {}
    const has = []
    for (const m of s.methods) {
      if (m.missing) continue
      has.push(m.name)
      const re = (x) => ({ v: `${m.name}(${x?.v ?? ''})` })
      impl[m.name] = [
        async function (req) { handled.push([m.name, this === impl]); return re(req) },
        async function* (req) { handled.push([m.name, this === impl]); yield re(req); yield re(req) },
        async function (reqs) { handled.push([m.name, this === impl]); let v = ''; for await (const x of reqs) v += (x.v ?? '') + ','; return re({ v }) },
        async function* (reqs) { handled.push([m.name, this === impl]); for await (const x of reqs) yield re(x) },
      ][m.kind]
    }
    const mux = srpc.createMux()
    mux.register(srpc.createHandler(def, impl, override))
    const server = new srpc.Server(mux.lookupMethod)
    const client = new g[l + 'Client'](new srpc.Client(async () => {
      const [a, b] = pair()
      server.handlePacketStream(b)
      return a
    }), opts)
    for (const m of s.methods) {
      const call = { method: m.name, got: [] }
      r.calls.push(call)
      const reqs = (m.reqs ?? []).map((v) => (m.in < 0 ? {} : { v }))
      const stream = () => (async function* () { yield* reqs })()
      const arg = () => (m.kind >= 2 ? stream() : reqs[0] ?? {})
      const ctl = m.signal ? new AbortController() : undefined
      const consume = async (res) => {
        const got = []
        if (m.kind & 1) for await (const x of res) got.push(x.v ?? '')
        else got.push((await res).v ?? '')
        return got
      }
      // the method may be used on its own.
      const f = s.detached ? fake[m.name] : (...a) => fake[m.name](...a)
      asked = undefined
      call.fake = await timely(consume(ctl ? f(arg(), ctl.signal) : f(arg())))
      if (asked) {
        const data = asked.kind >= 2 ? [] : [[...asked.data]]
        if (asked.kind >= 2) for await (const d of asked.data) data.push([...d])
        call.asked = { kind: asked.kind, service: asked.service, method: asked.method, data, signal: asked.signal === undefined ? 'none' : asked.signal === ctl?.signal ? 'same' : 'other' }
      }
      handled.length = 0
      const h = s.detached ? client[m.name] : (...a) => client[m.name](...a)
      const res = await timely(consume(ctl ? h(arg(), ctl.signal) : h(arg())))
      if (typeof res === 'string') call.err = res
      else call.got = res
      call.handled = handled.map((x) => x[0])
      call.bound = handled.every((x) => x[1])
    }
  }
}
