// Message ports and broadcast channels with delivery in virtual time.
// (The real ones deliver in order, asynchronously, as structured clones.)
import { sleep, time } from './clock.js'

export const delays = { list: [0], i: 0 }
const next = () => delays.list[delays.i++ % delays.list.length]

class Ev { constructor(data) { this.data = data; this.type = 'message' } }

class Receiver {
  constructor() { this.queue = []; this.started = false; this.listeners = []; this.handler = null; this.closed = false; this.last = Promise.resolve() }
  get onmessage() { return this.handler }
  set onmessage(f) { this.handler = f; this.began() }
  addEventListener(type, f) { if (type === 'message') this.listeners.push(f) }
  removeEventListener(type, f) { this.listeners = this.listeners.filter((x) => x !== f) }
  // (what waits is delivered soon, not at once.)
  began() { this.started = true; this.last = this.last.then(() => this.flush()) }
  deliver(data) {
    const copy = structuredClone(data)
    const d = next()
    this.last = this.last.then(() => (d > 0 ? sleep(d) : undefined)).then(() => {
      this.queue.push(copy)
      this.flush()
    })
  }
  flush() {
    while (this.started && !this.closed && this.queue.length > 0) {
      const ev = new Ev(this.queue.shift())
      if (ev.data?.from !== this.own) this.got = time()
      try { this.handler?.(ev) } catch (e) { process.emit('uncaughtException', e) }
      for (const f of [...this.listeners]) {
        try { f(ev) } catch (e) { process.emit('uncaughtException', e) }
      }
    }
  }
}

export class FakePort extends Receiver {
  start() { this.began() }
  postMessage(m) { if (!this.closed && !this.muted && this.peer && !this.peer.closed) this.peer.deliver(m) }
  close() {
    // what the peer was sent before still arrives.
    this.closed = true
    this.closedAt ??= time()
  }
}

export class FakeMessageChannel {
  constructor() {
    this.port1 = new FakePort()
    this.port2 = new FakePort()
    this.port1.peer = this.port2
    this.port2.peer = this.port1
  }
}

let channels = new Map()

export class FakeBroadcastChannel extends Receiver {
  constructor(name) {
    super()
    this.name = name
    this.started = true
    if (!channels.has(name)) channels.set(name, new Set())
    channels.get(name).add(this)
  }
  set onmessage(f) { this.handler = f }
  get onmessage() { return this.handler }
  postMessage(m) {
    if (this.closed) throw new DOMException('BroadcastChannel is closed.', 'InvalidStateError')
    if (this.muted) return
    for (const c of channels.get(this.name)) if (c !== this && !c.closed) c.deliver(m)
  }
  close() {
    this.closed = true
    this.closedAt ??= time()
    channels.get(this.name)?.delete(this)
  }
}

export function resetChannels() { channels = new Map() }

globalThis.MessagePort = FakePort
globalThis.MessageChannel = FakeMessageChannel
globalThis.BroadcastChannel = FakeBroadcastChannel
