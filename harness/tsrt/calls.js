import { sleep, time } from './clock.js'
import { duplexPair } from './link.js'
import { delays, resetChannels } from './ports.js'
import * as srpc from 'repo:srpc/index.ts'
import { WebSocketConn } from 'repo:srpc/websocket.ts'
import { streamToPacketStream } from 'repo:srpc/stream.ts'
import { EchoerClient, EchoerDefinition } from 'repo:echo/echo_srpc.pb.ts'
import { openRpcStream, handleRpcStream } from 'repo:rpcstream/rpcstream.ts'
import { EchoerServer } from 'repo:echo/server.ts'
import { pipe } from './shims/it-pipe.js'

const msg = (e) => (e instanceof Error ? e.message : String(e))
// raise throws the text as an Error, or otherwise.
function raise(kind, text) {
  switch (kind) {
    case 'string': throw text
    case 'object': throw { toString: () => text }
    case 'nothing': throw undefined
    case 'null': throw null
    case 'empty': throw new Error('')
    default: throw new Error(text)
  }
}
const gap = (ms) => (ms > 0 ? sleep(ms) : undefined)

// cuts returns how the case cuts the connection: at the link, at both ends or at one.
const cuts = (t, link, c, s) => (err) => {
  const e = err ? new Error(err) : undefined
  switch (t.side) {
    case 'client': return c(e)
    case 'server': return s(e)
    default:
      if (link) return link(err)
      c(e)
      s(e)
  }
}

// lateClient makes a client which may learn later how to open streams.
function lateClient(t, open) {
  if (!t.late) return new srpc.Client(open)
  const client = new srpc.Client()
  setTimeout(() => client.setOpenStreamFn(open), t.late)
  return client
}

// world connects a client to a server over the transport of the case.
export function world(t, server, rec) {
  const streams = []
  rec.streams = streams
  let gone = false
  const cutAll = (err) => { gone = true; for (const s of streams) s.cut(err) }
  const direct = (bytes) => async () => {
    await gap(t.open)
    if (t.failOpen) raise(t.raise, t.failOpen)
    if (gone) throw new Error('no link')
    const [a, b, cut] = duplexPair(t, bytes)
    streams.push({ a, b, cut })
    server.handlePacketStream(bytes ? streamToPacketStream(b) : b)
    return bytes ? streamToPacketStream(a) : a
  }
  resetChannels()
  delays.list = t.out?.delays?.length ? t.out.delays : [0]
  delays.i = 0
  const conn = () => {
    const c = new srpc.StreamConn(server, { direction: 'outbound' })
    const s = new srpc.StreamConn(server, { direction: 'inbound' })
    return [c, s]
  }
  switch (t.kind) {
    case 'packet':
      return { client: lateClient(t, direct(false)), cut: cutAll }
    case 'framed':
      return { client: lateClient(t, direct(true)), cut: cutAll }
    case 'conn': {
      const [c, s] = conn()
      const [a, b, cut] = duplexPair(t, true)
      pipe(a, c, srpc.combineUint8ArrayListTransform(), a).catch((e) => c.close(e)).then(() => c.close())
      pipe(b, s, srpc.combineUint8ArrayListTransform(), b).catch((e) => s.close(e)).then(() => s.close())
      return { client: c.buildClient(), back: s.buildClient(), cut: cuts(t, cut, (e) => c.close(e), (e) => s.close(e)), conns: [c, s] }
    }
    case 'websocket': {
      const [a, b, cut] = duplexPair(t, true)
      const c = new WebSocketConn(a, 'outbound', server)
      const s = new WebSocketConn(b, 'inbound', server)
      if (c.getSocket() !== a || s.getSocket() !== b) throw new Error('another socket')
      return { client: c.buildClient(), back: s.buildClient(), cut: cuts(t, cut, (e) => c.close(e), (e) => s.close(e)), conns: [c, s] }
    }
    case 'channel': {
      const [c, s] = conn()
      const { port1, port2 } = new MessageChannel()
      const a = new srpc.ChannelStream('client', port1, t.opts)
      const b = new srpc.ChannelStream('server', port2, t.opts)
      pipe(a, c, srpc.combineUint8ArrayListTransform(), a).catch((e) => c.close(e)).then(() => c.close())
      pipe(b, s, srpc.combineUint8ArrayListTransform(), b).catch((e) => s.close(e)).then(() => s.close())
      return { client: new srpc.Client(c.buildOpenStreamFunc()), back: new srpc.Client(s.buildOpenStreamFunc()), cut: cuts(t, null, (e) => a.close(e), (e) => b.close(e)), conns: [c, s] }
    }
    case 'port': {
      const { port1, port2 } = new MessageChannel()
      const c = new srpc.MessagePortConn(port1, server, { direction: 'outbound' })
      const s = new srpc.MessagePortConn(port2, server, { direction: 'inbound' })
      return { client: c.buildClient(), back: s.buildClient(), cut: cuts(t, null, (e) => c.close(e), (e) => s.close(e)), conns: [c, s] }
    }
    case 'broadcast': {
      const c = new srpc.BroadcastChannelConn(srpc.newBroadcastChannelDuplex('b', 'a'), server, { direction: 'outbound' })
      const s = new srpc.BroadcastChannelConn(srpc.newBroadcastChannelDuplex('a', 'b'), server, { direction: 'inbound' })
      return { client: c.buildClient(), back: s.buildClient(), cut: cuts(t, null, (e) => c.close(e), (e) => s.close(e)), conns: [c, s] }
    }
    case 'nested': {
      // the calls run in rpc streams within calls over packets
      const mux = srpc.createMux()
      mux.register(srpc.createHandler(EchoerDefinition, {
        RpcStream: (request) => handleRpcStream(request[Symbol.asyncIterator](), async (id) => {
          rec.ids = [...(rec.ids ?? []), id]
          return server.rpcStreamHandler
        }),
      }, 'outer'))
      const outer = world({ ...t, kind: t.inner ?? 'packet' }, new srpc.Server(mux.lookupMethod), rec)
      const cl = new EchoerClient(outer.client, { service: 'outer' })
      return { ...outer, client: new srpc.Client(() => openRpcStream(t.id ?? 'x', cl.RpcStream, t.ack)) }
    }
  }
  throw new Error('unknown transport ' + t.kind)
}

// script runs the operations of a handler and yields its messages.
async function* script(c, r, request) {
  r.runs = (r.runs ?? 0) + 1
  const it = request?.[Symbol.asyncIterator]?.()
  try {
    for (const o of c.ops) {
      await gap(o.d)
      if (o.send != null) {
        yield { body: o.send }
      } else if (it) {
        for (let n = o.read; n !== 0 && r.send == null; n--) {
          let x
          try {
            x = await it.next()
          } catch (e) {
            r.send = msg(e)
            if (c.pass) throw e
            break
          }
          if (x.done) r.send = 'EOF'
          else r.sgot.push(x.value.body ?? '')
        }
      }
    }
    await gap(c.d)
    if (c.err) raise(c.raise, c.err)
    r.sret = 'done'
  } finally {
    r.sret ??= 'threw'
  }
}

export function handlerOf(c, r) {
  // the last message of a unary or client stream handler is its result.
  const one = async (request) => {
    let res
    for await (const m of script(c, r, request)) res = m
    return res ?? { body: '' }
  }
  const unary = (f) => (request) => {
    r.sgot.push(request.body ?? '')
    return f(request)
  }
  return {
    Echo: unary(() => one()),
    EchoServerStream: unary(() => script(c, r)),
    EchoClientStream: (request) => one(request),
    EchoBidiStream: (request) => script(c, r, request),
  }
}

async function* requests(c, r) {
  for (const m of c.send) {
    await gap(c.sgap)
    yield { body: m }
    r.csent++
  }
  await gap(c.sgap)
  if (c.sendErr) raise(c.raise, c.sendErr)
  if (c.sendOpen) await new Promise(() => {})
}

export async function call(cl, c, r) {
  await gap(c.start)
  const ac = new AbortController()
  if (c.abort >= 0) {
    if (c.abort === 0) ac.abort()
    else setTimeout(() => ac.abort(), c.abort)
  }
  const one = { body: c.send[0] ?? '' }
  try {
    switch (c.kind) {
      case 'unary':
        r.cgot.push((await cl.Echo(one, ac.signal)).body ?? '')
        break
      case 'nothing':
        r.cgot.push(JSON.stringify(await cl.DoNothing({}, ac.signal)))
        break
      case 'client':
        r.cgot.push((await cl.EchoClientStream(requests(c, r), ac.signal)).body ?? '')
        break
      default: {
        const strm = c.kind === 'server' ? cl.EchoServerStream(one, ac.signal) : cl.EchoBidiStream(requests(c, r), ac.signal)
        const it = strm[Symbol.asyncIterator]()
        for (let n = c.reads; n !== 0; n--) {
          await gap(c.rgap)
          const x = await it.next()
          if (x.done) { r.cend = 'EOF'; break }
          r.cgot.push(x.value.body ?? '')
        }
        if (r.cend == null) { await it.return?.(); r.cend = 'left' }
      }
    }
    r.cend ??= 'EOF'
  } catch (e) {
    r.cend = msg(e)
  }
  r.cat = time()
  r.done = true
}

export async function calls(c, rec) {
  const mux = srpc.createMux()
  rec.calls = c.calls.map(() => ({ sgot: [], cgot: [], csent: 0 }))
  c.calls.forEach((x, i) => mux.register(srpc.createHandler(EchoerDefinition, handlerOf(x, rec.calls[i]), 's' + i)))
  const lookup = async (...a) => {
    if (c.failLookup) raise(c.t.raise, c.failLookup)
    return mux.lookupMethod(...a)
  }
  const w = world(c.t, new srpc.Server(lookup), rec)
  if (c.cut >= 0) setTimeout(() => w.cut(c.cutErr || undefined), c.cut)
  await Promise.all(c.calls.map((x, i) => call(new EchoerClient(x.back ? w.back : w.client, { service: 's' + i }), x, rec.calls[i])))
  await finish(w, rec)
}

async function finish(w, rec) {
  await sleep(5000e3)
  rec.streams = rec.streams.map((s) => ({
    cs: s.a.sunk ?? false, cr: s.a.rx.returned, cOver: s.a.rx.over ?? false,
    ss: s.b.sunk ?? false, sr: s.b.rx.returned, sOver: s.b.rx.over ?? false,
  }))
  rec.open = w.conns?.map((x) => x.streams.length)
}

// echo calls the Echoer server of the repository.
export async function echo(c, rec) {
  const mux = srpc.createMux()
  const server = new srpc.Server(mux.lookupMethod)
  mux.register(srpc.createHandler(EchoerDefinition, new EchoerServer(c.noProxy ? undefined : server)))
  rec.calls = c.calls.map(() => ({ sgot: [], cgot: [], csent: 0 }))
  const w = world(c.t, server, rec)
  if (c.cut >= 0) setTimeout(() => w.cut(c.cutErr || undefined), c.cut)
  const outer = new EchoerClient(w.client)
  const nested = (x) => new EchoerClient(new srpc.Client(() => openRpcStream(x.id ?? '', outer.RpcStream, x.ack)))
  await Promise.all(c.calls.map((x, i) => call(x.nested ? nested(x) : outer, x, rec.calls[i])))
  await finish(w, rec)
}
