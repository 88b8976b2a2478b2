// RPC streams: both ends, and each end against packets.
import { sleep, time } from './clock.js'
import { openRpcStream, handleRpcStream, RpcStream } from 'repo:rpcstream/rpcstream.ts'

const msg = (e) => (e instanceof Error ? e.message : String(e))
const gap = (ms) => (ms > 0 ? sleep(ms) : undefined)
const un64 = (s) => new Uint8Array(Buffer.from(s ?? '', 'base64'))
const to64 = (b) => Buffer.from(b).toString('base64')

// passed passes what it reads on, later.
async function* passed(it, delays) {
  let k = 0
  for await (const x of it) {
    await gap(delays.length ? delays[k++ % delays.length] : 0)
    yield x
  }
}

async function* source(s) {
  let k = 0
  for (const m of s.msgs) {
    await gap(s.gaps[k++ % s.gaps.length])
    yield un64(m)
  }
  await gap(s.gaps[k++ % s.gaps.length])
  if (s.end === 'throw') throw new Error(s.err)
  if (s.end === 'never') await new Promise(() => {})
}

async function readAll(stream, s, r) {
  try {
    for await (const b of stream.source) {
      r.got.push(to64(b))
      await gap(s.rgap)
    }
    r.end = 'EOF'
  } catch (e) {
    r.end = msg(e)
  }
}

function getter(c, rec) {
  return async (id) => {
    rec.ids.push(id)
    await gap(c.getter.d)
    switch (c.getter.kind) {
      case 'null': return null
      case 'throw': throw new Error(c.getter.err)
      case 'string': throw c.getter.err
      case 'nothing': throw undefined
    }
    return async (stream) => {
      rec.runs++
      if (c.server.fails) {
        await gap(c.server.rgap)
        throw new Error(c.server.fails)
      }
      const reads = readAll(stream, c.server, rec.server)
      await stream.sink(source(c.server))
      if (c.server.wait) await reads
    }
  }
}

export async function rpcstream(c, rec) {
  Object.assign(rec, { ids: [], runs: 0, client: { got: [], end: null }, server: { got: [], end: null } })
  const caller = (req) => passed(handleRpcStream(passed(req, c.up)[Symbol.asyncIterator](), getter(c, rec)), c.down)
  ;(async () => {
    let stream
    try {
      stream = await openRpcStream(c.id, caller, c.ack)
    } catch (e) {
      rec.failed = msg(e)
      return
    } finally {
      rec.at = time()
    }
    stream.sink(source(c.client)).then(() => { rec.sunk = true })
    await readAll(stream, c.client, rec.client)
  })()
  await sleep(1000e3)
}

const packet = (o) => {
  switch (o.what) {
    case 'init': return { body: { case: 'init', value: { componentId: o.v } } }
    case 'init none': return { body: { case: 'init', value: {} } }
    case 'ack': return { body: { case: 'ack', value: { error: o.v } } }
    case 'ack none': return { body: { case: 'ack', value: {} } }
    case 'data': return { body: { case: 'data', value: new TextEncoder().encode(o.v) } }
    case 'empty': return {}
    case 'no body': return { body: undefined }
    case 'no case': return { body: { case: undefined } }
  }
}

async function* packets(c) {
  for (const o of c.ops) {
    await gap(o.d)
    if (o.what === 'throw') throw new Error(o.v)
    if (o.what === 'wait') await new Promise(() => {})
    yield packet(o)
  }
}

export async function rpcpackets(c, rec) {
  Object.assign(rec, { ids: [], runs: 0, back: [], client: { got: [], end: null }, server: { got: [], end: null } })
  const record = async (it) => {
    try {
      for await (const p of it) {
        const b = p.body
        rec.back.push({ what: b.case, v: b.case === 'init' ? b.value.componentId : b.case === 'ack' ? b.value.error : Buffer.from(b.value).toString() })
      }
      rec.over = 'EOF'
    } catch (e) {
      rec.over = msg(e)
    }
  }
  if (c.to === 'server') {
    record(handleRpcStream(packets(c)[Symbol.asyncIterator](), getter(c, rec)))
  } else {
    const caller = (req) => { record(req); return packets(c) }
    ;(async () => {
      try {
        const stream = await openRpcStream(c.id, caller, c.ack)
        stream.sink(source(c.client))
        await readAll(stream, c.client, rec.client)
      } catch (e) {
        rec.failed = msg(e)
      }
    })()
  }
  await sleep(1000e3)
}
