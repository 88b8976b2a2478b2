// Stand-in for it-merge 3.0.9 on it-queueless-pushable 2.0.0: the same behaviour.
function defer() {
  const d = {}
  d.promise = new Promise((resolve, reject) => { d.resolve = resolve; d.reject = reject })
  return d
}

function raceSignal(promise, signal) {
  if (signal == null) return promise
  if (signal.aborted) {
    promise.catch(() => {})
    return Promise.reject(new Error('The operation was aborted'))
  }
  let listener
  return Promise.race([
    promise,
    new Promise((resolve, reject) => {
      listener = () => { reject(new Error('The operation was aborted')) }
      signal.addEventListener('abort', listener)
    }),
  ]).finally(() => { signal.removeEventListener('abort', listener) })
}

class QueuelessPushable {
  constructor() {
    this.ended = false
    this.readNext = defer()
    this.haveNext = defer()
  }
  [Symbol.asyncIterator]() { return this }
  async next() {
    if (this.nextResult == null) await this.haveNext.promise
    if (this.nextResult == null) throw new Error('HaveNext promise resolved but nextResult was undefined')
    const nextResult = this.nextResult
    this.nextResult = undefined
    this.readNext.resolve()
    this.readNext = defer()
    return nextResult
  }
  async throw(err) {
    this.ended = true
    this.error = err
    if (err != null) {
      this.haveNext.promise.catch(() => {})
      this.haveNext.reject(err)
    }
    return { done: true, value: undefined }
  }
  async return(value) {
    const result = { done: true, value }
    this.ended = true
    this.nextResult = result
    this.haveNext.resolve()
    return result
  }
  async push(value, options) { await this._push(value, options) }
  async end(err, options) {
    if (err != null) await this.throw(err)
    else await this._push(undefined, options)
  }
  async _push(value, options) {
    if (value != null && this.ended) throw this.error ?? new Error('Cannot push value onto an ended pushable')
    while (this.nextResult != null) await this.readNext.promise
    if (value != null) {
      this.nextResult = { done: false, value }
    } else {
      this.ended = true
      this.nextResult = { done: true, value: undefined }
    }
    this.haveNext.resolve()
    this.haveNext = defer()
    await raceSignal(this.readNext.promise, options?.signal)
  }
}

async function addAll(sources, output, signal) {
  try {
    await Promise.all(sources.map(async (source) => {
      for await (const item of source) {
        await output.push(item, { signal })
        signal.throwIfAborted()
      }
    }))
    await output.end(undefined, { signal })
  } catch (err) {
    await output.end(err, { signal }).catch(() => {})
  }
}

async function* mergeSources(sources) {
  const controller = new AbortController()
  const output = new QueuelessPushable()
  addAll(sources, output, controller.signal).catch(() => {})
  try {
    yield* output
  } finally {
    controller.abort()
  }
}

function* mergeSync(sources) {
  for (const source of sources) yield* source
}

export default function merge(...sources) {
  if (sources.every((s) => s[Symbol.asyncIterator] == null)) return mergeSync(sources)
  return mergeSources(sources)
}
