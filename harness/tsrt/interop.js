// Runs one end of calls between TypeScript and Go: the streams of bytes are
// frames on standard input and output, stream 0 carries the cases and results.
import { sleep } from './clock.js'
import { Link } from './link.js'
import { call, handlerOf } from './calls.js'
import * as srpc from 'repo:srpc/index.ts'
import { streamToPacketStream } from 'repo:srpc/stream.ts'
import { WebSocketConn } from 'repo:srpc/websocket.ts'
import { pipe } from './shims/it-pipe.js'
import { EchoerClient, EchoerDefinition } from 'repo:echo/echo_srpc.pb.ts'
import { openRpcStream, handleRpcStream } from 'repo:rpcstream/rpcstream.ts'

const OPEN = 0, DATA = 1, END = 2, CUT = 3
let stray = []
process.on('unhandledRejection', (e) => { stray.push('unhandled rejection: ' + (e?.stack ?? e)) })
process.on('uncaughtException', (e) => { stray.push('uncaught exception: ' + (e?.stack ?? e)) })

function frame(id, kind, payload = new Uint8Array(0)) {
  const h = Buffer.alloc(9)
  h.writeUInt32LE(payload.length + 5, 0)
  h.writeUInt32LE(id, 4)
  h[8] = kind
  process.stdout.write(Buffer.concat([h, payload]))
}

let cur = null
let nextID = 1

// stream is this end of a stream.
function stream(w, id) {
  const rx = new Link({ chunks: w.c.in.chunks, join: w.c.in.join }, true)
  // the other direction: chunks become frames.
  const tx = new Link({ chunks: w.c.out.chunks }, true)
  tx.put = (x) => {
    if (tx.ended) return
    if (x.done) {
      tx.ended = true
      frame(id, END)
    } else {
      frame(id, DATA, x.value)
    }
  }
  const s = {
    rx, tx,
    source: rx.source(),
    sink: async (source) => {
      s.sinking = true
      try {
        for await (const b of source) tx.push(b)
      } finally {
        tx.end()
        s.sunk = true
      }
    },
    close: async () => { if (!s.sinking) tx.end() },
  }
  w.streams.set(id, s)
  return s
}

function setup(c) {
  const w = { c, streams: new Map(), rec: { calls: c.calls.map(() => ({ sgot: [], cgot: [], csent: 0 })) } }
  const mux = srpc.createMux()
  c.calls.forEach((x, i) => mux.register(srpc.createHandler(EchoerDefinition, handlerOf(x, w.rec.calls[i]), 's' + i)))
  const inner = new srpc.Server(mux.lookupMethod)
  mux.register(srpc.createHandler(EchoerDefinition, {
    RpcStream: (request) => handleRpcStream(request[Symbol.asyncIterator](), async (id) => {
      w.rec.ids = [...(w.rec.ids ?? []), id]
      return inner.rpcStreamHandler
    }),
  }, 'outer'))
  w.server = new srpc.Server(mux.lookupMethod)
  const open = () => {
    const id = nextID
    nextID += 2
    frame(id, OPEN)
    return stream(w, id)
  }
  // connect makes a connection of many streams on the stream.
  w.connect = (s) => {
    const params = { direction: (c.dir === 'ts') !== !!c.flip ? 'outbound' : 'inbound' }
    if (c.mux === 'websocket') {
      w.conn = new WebSocketConn(s, params.direction, w.server)
      return w.conn
    }
    const conn = (w.conn = new srpc.StreamConn(w.server, params))
    pipe(s, conn, srpc.combineUint8ArrayListTransform(), s).catch((e) => conn.close(e)).then(() => conn.close())
    return conn
  }
  if (!c.mux) w.client = new srpc.Client(async () => streamToPacketStream(open()))
  else if (c.dir === 'ts') w.client = w.connect(open()).buildClient()
  if (c.nested) {
    const outer = new EchoerClient(w.client, { service: 'outer' })
    w.client = new srpc.Client(() => openRpcStream(c.id, outer.RpcStream, c.ack))
  }
  return w
}

async function finish(w) {
  // what still runs gets some time to end.
  if (w.conn) {
    for (let i = 0; w.conn.streams.length > 0 && i < 1000; i++) await sleep(i < 50 ? 0 : 5)
    w.rec.open = [w.conn.streams.length]
    w.conn.close()
  }
  const over = () => [...w.streams.values()].every((s) => s.sunk) && w.rec.calls.every((r) => !r.runs || r.sret)
  for (let i = 0; !over() && i < 1000; i++) await sleep(i < 50 ? 0 : 5)
  w.rec.streams = [...w.streams.values()].map((s) => ({ cs: s.sunk ?? false, cr: s.rx.returned, cOver: s.rx.over ?? false }))
  const res = { rec: w.rec, stray }
  frame(0, DATA, Buffer.from(JSON.stringify(res)))
}

async function control(m) {
  if (m.c) {
    stray = []
    const w = cur = setup(m.c)
    if (m.c.dir === 'ts') {
      await Promise.all(w.c.calls.map((x, i) => call(new EchoerClient(w.client, { service: 's' + i }), x, w.rec.calls[i])))
      await finish(w)
    }
  } else if (m.end) {
    await finish(cur)
  }
}

function receive(id, kind, payload) {
  if (id === 0) return control(JSON.parse(payload.toString()))
  if (kind === OPEN) {
    if (cur.c.mux) cur.connect(stream(cur, id))
    else cur.server.handlePacketStream(streamToPacketStream(stream(cur, id)))
    return
  }
  const s = cur.streams.get(id)
  if (!s) return
  if (kind === DATA) s.rx.push(new Uint8Array(payload))
  else if (kind === END) s.rx.end()
  else {
    s.rx.cut('link lost')
    s.tx.ended = true
  }
}

let buf = Buffer.alloc(0)
process.stdin.on('data', (b) => {
  buf = buf.length ? Buffer.concat([buf, b]) : b
  for (;;) {
    if (buf.length < 4) return
    const n = buf.readUInt32LE(0)
    if (buf.length < 4 + n) return
    const f = buf.subarray(4, 4 + n)
    buf = buf.subarray(4 + n)
    receive(f.readUInt32LE(0), f[4], Buffer.from(f.subarray(5)))
  }
})
process.stdin.on('end', () => process.exit(0))
