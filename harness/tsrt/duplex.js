// Two message port or broadcast channel duplexes.
import { sleep, time, pending } from './clock.js'
import { delays, resetChannels } from './ports.js'
import * as srpc from 'repo:srpc/index.ts'

const msg = (e) => (e instanceof Error ? e.message : String(e))
const gap = (ms) => (ms > 0 ? sleep(ms) : undefined)

export async function duplex(c, rec) {
  resetChannels()
  delays.list = c.delays.length ? c.delays : [0]
  delays.i = 0
  const { port1, port2 } = new MessageChannel()
  const make = (i) => {
    if (c.kind === 'port') return srpc.newMessagePortDuplex(i ? port2 : port1)
    return srpc.newBroadcastChannelDuplex('to' + i, 'to' + (1 - i))
  }
  const ds = [make(0), make(1)]
  rec.sides = c.sides.map(() => ({ got: [], end: null, sink: null, sent: 0, over: -1 }))
  c.sides.forEach((s, i) => {
    const r = rec.sides[i]
    const d = ds[i]
    const shut = c.kind === 'port' ? d.port : d.read
    ;(async () => {
      await gap(s.readAt)
      try {
        for await (const m of d.source) {
          r.got.push(m)
          await gap(s.rgap)
        }
        r.end = 'EOF'
      } catch (e) {
        r.end = msg(e)
      }
    })()
    if (s.sinkAt >= 0) {
      ;(async () => {
        await gap(s.sinkAt)
        const source = async function* () {
          let k = 0
          for (const m of s.msgs) {
            await gap(s.gaps[k++ % s.gaps.length])
            if (!shut.closed) r.sent++
            yield m
          }
          await gap(s.gaps[k++ % s.gaps.length])
          if (s.end === 'throw') throw new Error(s.err)
          if (s.end === 'never') await new Promise(() => {})
        }
        try {
          await d.sink(source())
          r.sink = 'ok'
        } catch (e) {
          r.sink = msg(e)
        }
      })()
    }
    if (s.closeAt >= 0) {
      setTimeout(() => {
        try {
          d.close()
          if (s.twice) d.close()
        } catch (e) {
          r.threw = msg(e)
        }
      }, s.closeAt)
    }
  })
  await sleep(100e3)
  rec.sides.forEach((r, i) => { r.over = (c.kind === 'port' ? ds[i].port : ds[i].read).closedAt ?? -1 })
  rec.timers = pending()
}
