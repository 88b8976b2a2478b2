// The parts: the mux and handlers, containers, the watchdog, errors, pushables.
import { sleep, time, pending } from './clock.js'
import * as srpc from 'repo:srpc/index.ts'
import { EchoerDefinition } from 'repo:echo/echo_srpc.pb.ts'
import { pushable } from './shims/it-pushable.js'

const msg = (e) => (e instanceof Error ? e.message : String(e))
const gap = (ms) => (ms > 0 ? sleep(ms) : undefined)

export async function mux(c, rec) {
  const m = srpc.createMux()
  const lookup = m.lookupMethod
  const fns = new Map()
  const fn = (id) => {
    const f = async () => {}
    fns.set(f, id)
    return f
  }
  const name = (f) => (f === null ? 'none' : fns.has(f) ? fns.get(f) : typeof f === 'function' ? 'another function' : String(f))
  const handlers = []
  rec.out = []
  for (const [k, o] of c.ops.entries()) {
    let out = ''
    try {
      switch (o.op) {
        case 'register': {
          const methods = {}
          for (const n of o.methods) Object.defineProperty(methods, n, { value: fn(k + '.' + n), enumerable: true, configurable: true, writable: true })
          const h = new srpc.StaticHandler(o.service, methods)
          handlers.push(h)
          out = h.getServiceID() + ':' + h.getMethodIDs().sort().join()
          m.register(h)
          break
        }
        case 'custom': {
          const f = fn(k + '')
          const h = {
            getServiceID: () => o.service,
            getMethodIDs: () => o.methods,
            lookupMethod: async (s, n) => { await gap(o.d); return o.finds === n ? f : null },
          }
          handlers.push(h)
          m.register(h)
          break
        }
        case 'create': {
          const impl = {}
          for (const n of o.methods) impl[n] = async () => ({ body: '' })
          const h = srpc.createHandler(EchoerDefinition, impl, o.service || undefined)
          handlers.push(h)
          for (const n of h.getMethodIDs()) fns.set(await h.lookupMethod('', n), k + '.' + n)
          out = h.getServiceID() + ':' + h.getMethodIDs().sort().join()
          m.register(h)
          break
        }
        case 'fallback': {
          const f = fn(k + '')
          m.registerLookupMethod(async (s, n) => {
            await gap(o.d)
            if (o.err) throw new Error(o.err)
            return o.all || (o.service === s && o.methods.includes(n)) ? f : null
          })
          break
        }
        case 'direct':
          if (handlers.length) out = name(await handlers[o.i % handlers.length].lookupMethod(o.service, o.method))
          break
        case 'lookup':
          out = name(await (o.early ? lookup : m.lookupMethod)(o.service, o.method))
          break
      }
    } catch (e) {
      out = 'error: ' + msg(e)
    }
    rec.out.push(out)
  }
}

export async function ctr(c, rec) {
  // the values are functions which say who they are
  const stream = (id) => async (arg) => id + (arg === undefined ? '' : ':' + arg)
  const made = new Map()
  const val = (v) => {
    if (v == null) return undefined
    if (c.kind === 'value') return v
    if (!made.has(v)) made.set(v, stream(v))
    return made.get(v)
  }
  const name = (v) => {
    if (c.kind === 'value') return v === undefined ? null : v
    for (const [k, f] of made) if (f === v) return k
    return v === undefined ? null : 'another'
  }
  const init = val(c.init)
  const x = c.kind === 'open' ? new srpc.OpenStreamCtr(init) : c.kind === 'handle' ? new srpc.HandleStreamCtr(init) : new srpc.ValueCtr(init)
  const client = c.kind === 'open' ? new srpc.Client(init) : null
  const opener = c.kind === 'open' ? x.openStreamFunc : c.kind === 'handle' ? x.handleStreamFunc : null
  rec.out = c.ops.map(() => ({ n: 0, v: null, at: -1 }))
  for (const [k, o] of c.ops.entries()) {
    await gap(o.d)
    const r = rec.out[k]
    const got = (v) => { r.n++; r.v = v; r.at = time() }
    switch (o.op) {
      case 'set': x.set(val(o.v)); break
      case 'get': got(name(x.value)); break
      case 'wait': x.wait().then((v) => got(name(v))); break
      case 'callback': x.waitWithCb((v) => got(name(v))); break
      case 'again': {
        r.v = []
        const again = (v) => { r.n++; r.v.push(name(v)); r.at = time(); x.waitWithCb(again) }
        x.waitWithCb(again)
        break
      }
      case 'call': opener(c.kind === 'handle' ? 'arg' + k : undefined).then(got); break
    }
  }
  await sleep(1000)
}

export async function watchdog(c, rec) {
  rec.fired = []
  const now = Date.now
  // a coarse clock
  Date.now = () => Math.floor(now() / c.grain) * c.grain
  try {
    const w = new srpc.Watchdog(c.timeout, () => { rec.fired.push(time()) })
    rec.at = []
    for (const o of c.ops) {
      await gap(o.d)
      rec.at.push(time())
      if (o.op === 'feed') w.feed()
      else w.clear()
    }
    await sleep(c.timeout * 5 + 100 * c.grain)
    rec.timers = pending()
  } finally {
    Date.now = now
  }
}

export async function pushing(c, rec) {
  rec.got = []
  const out = c.out === 'message' ? srpc.messagePushable() : pushable({ objectMode: true })
  const items = function* () {
    yield* c.msgs
    if (c.err != null) throw new Error(c.err)
  }
  const later = async function* () {
    let k = 0
    for (const m of c.msgs) { await gap(c.gaps[k++ % c.gaps.length]); yield m }
    if (c.err != null) throw new Error(c.err)
  }
  const done = c.sink ? srpc.buildPushableSink(out)(c.sync ? items() : later()) : srpc.writeToPushable(later(), out)
  done.then(() => { rec.done = 'ok' }, (e) => { rec.done = msg(e) })
  await gap(c.readAt)
  try {
    for await (const m of out) {
      rec.got.push(m)
      await gap(c.rgap)
    }
    rec.end = 'EOF'
  } catch (e) {
    rec.end = msg(e)
  }
  await sleep(10)
}

export async function errors(c, rec) {
  const make = {
    error: () => new Error(c.text), string: () => c.text, undefined: () => undefined, null: () => null, number: () => c.num,
    object: () => ({}), bare: () => Object.create(null), like: () => ({ message: c.text }), zero: () => 0,
    named: () => ({ toString: () => c.text }), range: () => new RangeError(c.text), function: () => function f() {},
  }
  const e = make[c.kind]()
  const cast = srpc.castToError(e, c.def === '' ? undefined : c.def)
  rec.cast = cast.message
  rec.same = cast === e
  rec.isError = cast instanceof Error
  rec.abort = srpc.isAbortError(e)
  rec.idle = srpc.isStreamIdleError(e)
}
