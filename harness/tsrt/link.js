// Links: one direction of a connection with generated delays, chunks and an end.
import { sleep } from './clock.js'

export class Link {
  constructor(plan, bytes) {
    this.plan = plan ?? {}
    this.bytes = bytes
    this.queue = []
    this.waiter = null
    this.ended = false
    this.i = 0
    this.ci = 0
    this.last = Promise.resolve()
    this.sent = 0
    this.returned = false
  }
  delay() {
    const l = this.plan.delays ?? []
    return l.length ? l[this.i++ % l.length] : 0
  }
  put(x) {
    if (this.ended) return
    const d = this.delay()
    this.last = this.last.then(() => (d > 0 ? sleep(d) : undefined)).then(() => {
      if (this.ended) return
      this.queue.push(x)
      this.wake()
    })
  }
  push(b) {
    if (b != null && !(b instanceof Uint8Array) && typeof b.subarray === 'function') b = b.subarray()
    this.sent += b.length
    if (!this.bytes) return this.put({ value: b })
    // split and join as the plan says
    const chunks = this.plan.chunks ?? []
    const min = Math.max(1, Math.floor(b.length / 300))
    for (let i = 0; i < b.length;) {
      const n = chunks.length ? Math.max(min, chunks[this.ci++ % chunks.length]) : b.length
      this.put({ value: b.slice(i, i + n) })
      i += n
    }
  }
  // end ends the stream after what was sent, cut at once.
  end(err) { this.put({ done: true, err }) }
  cut(err) {
    if (this.ended) return
    this.ended = true
    this.queue.push({ done: true, err })
    this.wake()
  }
  wake() {
    const w = this.waiter
    this.waiter = null
    w?.()
  }
  async* source() {
    try {
      for (;;) {
        while (this.queue.length === 0) await new Promise((r) => { this.waiter = r })
        let x = this.queue.shift()
        if (this.bytes && this.plan.join && x.value) {
          while (this.queue.length > 0 && this.queue[0].value) {
            const y = this.queue.shift()
            const z = new Uint8Array(x.value.length + y.value.length)
            z.set(x.value)
            z.set(y.value, x.value.length)
            x = { value: z }
          }
        }
        if (x.done) {
          this.over = true
          if (x.err) throw new Error(x.err)
          return
        }
        yield x.value
      }
    } finally {
      this.returned = true
    }
  }
}

// duplexPair returns two connected duplexes of packets or bytes.
export function duplexPair(plan, bytes) {
  const ab = new Link(plan.out, bytes)
  const ba = new Link(plan.in, bytes)
  const side = (tx, rx) => {
    const s = {
      tx, rx,
      closed: 0,
      source: rx.source(),
      sink: async (source) => {
        s.sinking = true
        try {
          for await (const b of source) tx.push(b)
        } catch (e) {
          s.sinkErr = String(e?.message ?? e)
          tx.end('reset')
          s.sunk = true
          throw e
        }
        tx.end()
        s.sunk = true
      },
      // as of a libp2p stream
      close: async () => {
        s.closed++
        if (!s.sinking) tx.end()
      },
    }
    return s
  }
  return [side(ab, ba), side(ba, ab), (err) => { ab.cut(err); ba.cut(err) }]
}
