// Raw bytes and packets against the framing, the server and the client.
import { sleep, time } from './clock.js'
import { duplexPair } from './link.js'
import * as srpc from 'repo:srpc/index.ts'
import * as packet from 'repo:srpc/packet.ts'
import { EchoerClient, EchoerDefinition, } from 'repo:echo/echo_srpc.pb.ts'
import { EchoMsg } from 'repo:echo/echo.pb.ts'
import { Uint8ArrayList } from './shims/uint8arraylist.js'
import { pipe } from './shims/it-pipe.js'

const msg = (e) => (e instanceof Error ? e.message : String(e))
const gap = (ms) => (ms > 0 ? sleep(ms) : undefined)
const un64 = (s) => new Uint8Array(Buffer.from(s, 'base64'))
const to64 = (b) => Buffer.from(b.subarray ? b.subarray() : b).toString('base64')

// parts splits b into the sizes of the plan; every other part may be a list.
function* parts(b, sizes, lists) {
  let k = 0
  for (let i = 0; i < b.length; k++) {
    const n = sizes?.length ? sizes[k % sizes.length] : b.length
    const p = b.slice(i, i + n)
    i += n
    const l = lists?.length ? lists[k % lists.length] : 0
    if (l === 1) yield new Uint8ArrayList(p)
    else if (l === 2) yield new Uint8ArrayList(p.slice(0, p.length >> 1), p.slice(p.length >> 1))
    else yield p
  }
}

async function* delayed(it, d) {
  let k = 0
  for (const x of it) {
    await gap(d?.length ? d[k++ % d.length] : 0)
    yield x
  }
}

export async function framing(c, rec) {
  const frames = c.frames.map(un64)
  // what the encoder writes
  const enc = []
  const src = frames.map((f, i) => (c.lists?.[i % c.lists.length] === 1 ? new Uint8ArrayList(f) : c.lists?.[i % c.lists.length] === 2 ? new Uint8ArrayList(f.slice(0, 1), f.slice(1)) : f))
  for await (const b of pipe(c.async ? delayed(src, c.delays) : src, packet.prependLengthPrefixTransform(), srpc.combineUint8ArrayListTransform())) enc.push(to64(b))
  rec.enc = enc
  rec.pre = frames.map((f) => to64(packet.prependPacketLen(f)))
  rec.nums = c.nums.map((n) => to64(packet.encodeUint32Le(n)))
  rec.back = c.nums.map((n) => packet.decodeUint32Le(packet.encodeUint32Le(n)))
  // what the decoder reads
  rec.dec = []
  const stream = un64(c.stream)
  try {
    for await (const b of pipe(delayed(parts(stream, c.sizes, c.lists), c.delays), packet.parseLengthPrefixTransform(), srpc.combineUint8ArrayListTransform())) {
      if (!(b instanceof Uint8Array)) throw new Error('not bytes')
      rec.dec.push(to64(b))
    }
    rec.end = 'EOF'
  } catch (e) {
    rec.end = msg(e)
  }
  // message transforms
  rec.msgs = []
  try {
    const groups = c.groups.map((g) => (g.length === 1 ? { body: g[0] } : g.map((b) => ({ body: b }))))
    const out = []
    for await (const b of srpc.buildEncodeMessageTransform(EchoMsg)(delayed(groups, c.delays))) out.push(b)
    rec.nenc = out.length
    const again = c.regroup ? [out] : out
    for await (const m of srpc.buildDecodeMessageTransform(EchoMsg)(delayed(again, c.delays))) rec.msgs.push(m.body ?? '')
  } catch (e) {
    rec.merr = msg(e)
  }
}

// drive writes the packets of the script to the link and reads what comes back.
async function drive(c, side, cut, rec) {
  const got = (async () => {
    rec.back = []
    try {
      for await (const b of side.source) rec.back.push(to64(b))
      rec.over = 'EOF'
    } catch (e) {
      rec.over = msg(e)
    }
  })()
  for (const o of c.ops) {
    await gap(o.d)
    if (o.p != null) side.tx.push(un64(o.p))
    else if (o.end === 'end') side.tx.end(o.err || undefined)
    else if (o.end === 'cut') cut(o.err || undefined)
  }
  await sleep(5000e3)
  if (c.finish) { side.tx.end(); await got }
}

// server: raw packets to a server whose handlers echo.
export async function server(c, rec) {
  rec.runs = []
  const handler = (name, all) => async function* (request) {
    const r = { name, got: [] }
    rec.runs.push(r)
    try {
      for await (const m of request) { r.got.push(m.body ?? ''); yield { body: m.body } }
      r.end = 'EOF'
    } catch (e) {
      r.end = msg(e)
      throw e
    } finally {
      r.end ??= 'left'
    }
  }
  const mux = srpc.createMux()
  mux.register(srpc.createHandler(EchoerDefinition, {
    EchoBidiStream: handler('bidi'),
    Echo: async (m) => { rec.runs.push({ name: 'unary', got: [m.body ?? ''], end: 'EOF' }); return { body: m.body } },
  }, 'svc'))
  const s = new srpc.Server(async (service, method) => { await gap(c.lookup); return mux.lookupMethod(service, method) })
  const [a, b, cut] = duplexPair({}, false)
  const rpc = s.handlePacketStream(b)
  await drive(c, a, cut, rec)
  const closed = rpc.isClosed
  rec.closed = closed === false ? 'open' : closed === true ? 'closed' : msg(closed)
  rec.sunk = b.sunk ?? false
  // the server still serves.
  const runs = rec.runs.map((r) => ({ ...r, got: [...r.got] }))
  const cl = new EchoerClient(new srpc.Client(async () => {
    const [x, y] = duplexPair({}, false)
    s.handlePacketStream(y)
    return x
  }), { service: 'svc' })
  rec.after = (await cl.Echo({ body: 'still there' })).body
  rec.runs = runs
}

// client: raw packets to a client call.
export async function client(c, rec) {
  const [a, b, cut] = duplexPair({}, false)
  const cl = new EchoerClient(new srpc.Client(async () => a), { service: 'svc' })
  rec.got = []
  const call = (async () => {
    const forever = async function* () { yield { body: 'x' }; if (c.sendOpen) await new Promise(() => {}) }
    try {
      switch (c.kind) {
        case 'unary': rec.got.push((await cl.Echo({ body: 'x' })).body ?? ''); break
        case 'client': rec.got.push((await cl.EchoClientStream(forever())).body ?? ''); break
        default:
          for await (const m of c.kind === 'server' ? cl.EchoServerStream({ body: 'x' }) : cl.EchoBidiStream(forever())) {
            await gap(c.rgap)
            rec.got.push(m.body ?? '')
          }
      }
      rec.end = 'EOF'
    } catch (e) {
      rec.end = msg(e)
    }
    rec.at = time()
  })()
  await drive(c, b, cut, rec)
  rec.sunk = a.sunk ?? false
  await call
}
