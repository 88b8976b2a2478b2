// Two ChannelStreams over a pair of ports or channels.
import { sleep, time, pending } from './clock.js'
import { delays, resetChannels } from './ports.js'
import * as srpc from 'repo:srpc/index.ts'

const msg = (e) => (e instanceof Error ? e.message : String(e))
const gap = (ms) => (ms > 0 ? sleep(ms) : undefined)

function* syncSource(s) {
  yield* s.msgs
  if (s.end === 'throw') throw new Error(s.err)
}

async function* source(s, r) {
  let k = 0
  try {
    for (const m of s.msgs) {
      await gap(s.gaps[k++ % s.gaps.length])
      if (!r.closed) r.sent++
      yield m
    }
    await gap(s.gaps[k++ % s.gaps.length])
    if (s.end === 'throw') throw new Error(s.err)
    if (s.end === 'never') await new Promise(() => {})
  } finally {
    r.left = true
  }
}

export async function channel(c, rec) {
  resetChannels()
  delays.list = c.delays.length ? c.delays : [0]
  delays.i = 0
  const { port1, port2 } = new MessageChannel()
  rec.sides = c.sides.map(() => ({ got: [], ats: [], end: null, sent: 0, sink: null, ack: null, opened: null, closed: false }))
  const all = []
  const streams = []
  c.sides.forEach((s, i) => all.push((async () => {
    const r = rec.sides[i]
    await gap(s.at)
    let stream
    const id = 'side' + i
    if (c.kind === 'port') stream = new srpc.ChannelStream(id, i ? port2 : port1, s.opts)
    else if (c.kind === 'same') stream = srpc.newBroadcastChannelStream(id, 'both', 'both', s.opts)
    else stream = srpc.newBroadcastChannelStream(id, 'to' + i, 'to' + (1 - i), s.opts)
    streams[i] = stream
    const rx = c.kind === 'port' ? stream.channel : stream.channel.rx
    rx.own = id
    const tx = c.kind === 'port' ? stream.channel : stream.channel.tx
    // who does not wait for them must not see their rejections.
    if (!c.unwatched) {
      stream.waitRemoteAck.then(() => { r.ack = 'ok' }, (e) => { r.ack = msg(e) })
      stream.waitRemoteOpen.then(() => { r.opened = 'ok' }, (e) => { r.opened = msg(e) })
    }
    if (s.muteAt >= 0) setTimeout(() => { tx.muted = true }, s.muteAt)
    const close = (err) => {
      r.closed = true
      try {
        if (err) stream.close(new Error(err))
        else stream.close()
      } catch (e) {
        r.threw = msg(e)
      }
    }
    r.close = close
    if (s.closeAt >= 0) {
      setTimeout(() => {
        close(s.closeErr)
        if (s.twice) close()
      }, s.closeAt)
    }
    if (s.sinkAt >= 0) {
      ;(async () => {
        await gap(s.sinkAt)
        try {
          await stream.sink(s.sync ? syncSource(s) : source(s, r))
          r.sink = 'ok'
        } catch (e) {
          r.sink = msg(e)
        }
      })()
    }
    if (s.readAt >= 0) {
      ;(async () => {
        await gap(s.readAt)
        try {
          for await (const m of stream.source) {
            r.got.push(m)
            r.ats.push(time())
            await gap(s.rgap)
          }
          r.end = 'EOF'
        } catch (e) {
          r.end = msg(e)
        }
        r.endAt = time()
      })()
    }
    await sleep(500e3)
    r.last = rx.got ?? -1
    r.shut = rx.closedAt ?? -1
    r.acked = stream.isAcked
    r.open = stream.isOpen
  })()))
  await Promise.all(all)
  await sleep(1000)
  rec.before = rec.sides.map((r) => ({ ...r, got: [...r.got], close: undefined }))
  // close what is open: nothing may be left.
  for (const r of rec.sides) r.close('over')
  await sleep(10e3)
  rec.timers = pending()
  rec.after = rec.sides.map((r) => ({ ...r, close: undefined }))
  delete rec.sides
}
