// A small stream muxer in place of @chainsafe/libp2p-yamux 7: yamux frames on
// the wire, and streams which behave like those of libp2p 2 (AbstractStream).
import { pushable } from './it-pushable.js'
import { Uint8ArrayList } from './uint8arraylist.js'

const SYN = 1, ACK = 2, FIN = 4, RST = 8
const DATA = 0, WINDOW = 1, PING = 2, GOAWAY = 3
const WINDOW_SIZE = 256 * 1024

function header(type, flags, id, length) {
  const b = new Uint8Array(12)
  const v = new DataView(b.buffer)
  v.setUint8(1, type)
  v.setUint16(2, flags)
  v.setUint32(4, id)
  v.setUint32(8, length)
  return b
}

class MuxStream {
  constructor(mux, id) {
    this.mux = mux
    this.id = String(id)
    this.sid = id
    this.sendWindow = WINDOW_SIZE
    this.waiters = []
    this.readClosed = this.writeClosed = false
    this.rx = pushable({ onEnd: () => {} })
    this.status = 'open'
    this.sinkCalled = false
    this.source = this.read()
    this.sinkEnd = new Promise((r) => { this.sinkDone = r })
    this.sink = (source) => this.write(source)
  }
  async* read() {
    for await (const b of this.rx) {
      yield new Uint8ArrayList(b)
      if (this.status === 'open') this.mux.send(header(WINDOW, 0, this.sid, b.length))
    }
  }
  wake() {
    const w = this.waiters
    this.waiters = []
    for (const f of w) f()
  }
  async write(source) {
    if (this.sinkCalled || this.writeClosed) throw new Error('writable end state is "closed" not "ready"')
    this.sinkCalled = true
    const it = source[Symbol.asyncIterator] ? source[Symbol.asyncIterator]() : source[Symbol.iterator]()
    this.sinkIt = it
    try {
      for (;;) {
        const stop = new Promise((resolve, reject) => { this.stopSink = () => resolve(STOP); if (this.aborted) reject(this.aborted); else if (this.closing) resolve(STOP) })
        const next = Promise.resolve(it.next())
        next.catch(() => {})
        const r = await Promise.race([next, stop])
        if (this.aborted) throw this.aborted
        if (r === STOP || r.done) break
        let data = r.value instanceof Uint8Array ? r.value : r.value.subarray()
        while (data.length > 0) {
          while (this.sendWindow === 0 && !this.aborted) await new Promise((w) => this.waiters.push(w))
          if (this.aborted) throw this.aborted
          const n = Math.min(data.length, this.sendWindow)
          this.sendWindow -= n
          this.mux.send(header(DATA, 0, this.sid, n), data.slice(0, n))
          data = data.subarray(n)
        }
      }
      this.sendFin()
    } catch (err) {
      this.abort(err)
      throw err
    } finally {
      this.sinkDone()
    }
  }
  sendFin() {
    if (this.writeClosed) return
    this.writeClosed = true
    this.mux.send(header(WINDOW, FIN, this.sid, 0))
    this.maybeEnd()
  }
  maybeEnd() {
    if (this.readClosed && this.writeClosed && this.status === 'open') {
      this.status = 'closed'
      this.mux.drop(this)
    }
  }
  async close() {
    this.rx.end()
    this.readClosed = true
    this.closing = true
    if (this.status !== 'open') return
    if (this.sinkCalled) {
      if (!this.writeClosed) {
        this.stopSink?.()
        Promise.resolve(this.sinkIt?.return?.()).catch(() => {})
        await this.sinkEnd
      }
    } else {
      this.sendFin()
    }
    this.maybeEnd()
  }
  async closeRead() { this.rx.end(); this.readClosed = true; this.maybeEnd() }
  async closeWrite() { this.sendFin() }
  abort(err) {
    if (this.status !== 'open') return
    this.status = 'aborted'
    this.mux.send(header(WINDOW, RST, this.sid, 0))
    this.fail(err)
  }
  fail(err) {
    this.status = 'aborted'
    this.aborted = err
    this.rx.end(err)
    this.stopSink?.()
    Promise.resolve(this.sinkIt?.return?.()).catch(() => {})
    this.wake()
    this.mux.drop(this)
  }
}

const STOP = Symbol('stop')

class Muxer {
  constructor(init) {
    this.protocol = '/yamux/1.0.0'
    this.init = init
    this.client = init.direction !== 'inbound'
    this.next = this.client ? 1 : 2
    this.map = new Map()
    this.out = pushable({ objectMode: true })
    this.source = this.out
    this.buf = new Uint8ArrayList()
    this.sink = (source) => this.run(source)
    this.closed = false
  }
  get streams() { return [...this.map.values()] }
  send(...parts) {
    if (this.closed) return
    this.out.push(parts.length === 1 ? parts[0] : new Uint8ArrayList(...parts))
  }
  drop(s) { this.map.delete(s.sid) }
  async newStream() {
    if (this.closed) throw new Error('Muxer closed locally')
    const s = new MuxStream(this, this.next)
    this.next += 2
    this.map.set(s.sid, s)
    this.send(header(WINDOW, SYN, s.sid, 0))
    return s
  }
  async run(source) {
    let err
    try {
      for await (const b of source) {
        if (this.closed) break
        this.buf.append(b)
        this.parse()
      }
    } catch (e) { err = e }
    this.shut(err ?? new Error('Connection closed by remote'))
  }
  parse() {
    while (this.buf.length >= 12 && !this.closed) {
      const h = this.buf.slice(0, 12)
      const v = new DataView(h.buffer, h.byteOffset)
      const type = v.getUint8(1), flags = v.getUint16(2), id = v.getUint32(4), length = v.getUint32(8)
      const n = type === DATA ? length : 0
      if (this.buf.length < 12 + n) return
      const data = n ? this.buf.slice(12, 12 + n) : null
      this.buf.consume(12 + n)
      if (type === PING) {
        if (flags & SYN) this.send(header(PING, ACK, 0, length))
        continue
      }
      if (type === GOAWAY) continue
      let s = this.map.get(id)
      let fresh = false
      if (flags & SYN) {
        s = new MuxStream(this, id)
        this.map.set(id, s)
        this.send(header(WINDOW, ACK, id, 0))
        fresh = true
      }
      if (fresh) this.init.onIncomingStream(s)
      if (s == null) continue
      if (type === DATA && data && !s.readClosed) s.rx.push(data)
      if (type === DATA && data && s.readClosed) this.send(header(WINDOW, 0, id, data.length))
      if (type === WINDOW) { s.sendWindow += length; s.wake() }
      if (flags & FIN) { s.rx.end(); s.readClosed = true; s.maybeEnd() }
      if (flags & RST) s.fail(new Error('stream reset'))
    }
  }
  shut(err) {
    if (this.closed) return
    for (const s of this.streams) s.fail(err)
    this.closed = true
    this.out.end()
  }
  async close() {
    if (this.closed) return
    await Promise.all(this.streams.map((s) => s.close().catch(() => {})))
    this.send(header(GOAWAY, 0, 0, 0))
    this.shut(new Error('closed'))
  }
  abort(err) { this.shut(err ?? new Error('aborted')) }
}

export function yamux() {
  return () => ({ protocol: '/yamux/1.0.0', createStreamMuxer: (init) => new Muxer(init ?? {}) })
}
