// A virtual clock: timers fire in order, each when everything before has settled.
const realImmediate = globalThis.setImmediate
let now = 0
let seq = 0
let timers = []
let background = 0

class Timer {
  constructor(at, fn) { this.at = at; this.fn = fn; this.seq = seq++ }
  ref() { return this }
  unref() { return this }
  hasRef() { return true }
  [Symbol.toPrimitive]() { return this.seq }
}

globalThis.setTimeout = (fn, ms, ...args) => {
  const t = new Timer(now + Math.max(0, Number(ms) || 0), () => fn(...args))
  timers.push(t)
  return t
}
globalThis.clearTimeout = (t) => { timers = timers.filter((x) => x !== t) }
globalThis.setInterval = (fn, ms, ...args) => {
  const t = new Timer(now + Math.max(1, Number(ms) || 0), () => {
    t.at = now + Math.max(1, Number(ms) || 0)
    t.seq = seq++
    timers.push(t)
    fn(...args)
  })
  timers.push(t)
  return t
}
globalThis.clearInterval = globalThis.clearTimeout
Date.now = () => 1700000000000 + now

export const time = () => now
export const sleep = (ms) => new Promise((resolve) => setTimeout(resolve, ms))
export const pending = () => timers.length

const settle = () => new Promise((resolve) => realImmediate(resolve))

// run runs main to its end in virtual time. It returns {hang: true} if nothing
// can happen any more, or the time runs out, before.
export async function run(main, limit = 36000e3) {
  now = 0
  timers = []
  const res = {}
  let done = false
  main().then((v) => { res.value = v; done = true }, (e) => { res.error = e; done = true })
  for (;;) {
    await settle()
    if (done) return res
    if (timers.length === 0) return { hang: true }
    timers.sort((a, b) => a.at - b.at || a.seq - b.seq)
    const t = timers.shift()
    now = Math.max(now, t.at)
    if (now > limit) return { hang: true }
    try { t.fn() } catch (e) { process.emit('uncaughtException', e) }
  }
}
