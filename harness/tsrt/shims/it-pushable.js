// Stand-in for it-pushable 3.2.3 (not installed, no network): the same behaviour.
class FIFO {
  constructor() { this.items = []; this.head = 0 }
  push(x) { this.items.push(x) }
  shift() {
    if (this.head >= this.items.length) return undefined
    const x = this.items[this.head]
    this.items[this.head++] = undefined
    if (this.head === this.items.length) { this.items = []; this.head = 0 }
    return x
  }
  isEmpty() { return this.head >= this.items.length }
  get size() { return this.items.length - this.head }
}

function defer() {
  const d = {}
  d.promise = new Promise((resolve, reject) => { d.resolve = resolve; d.reject = reject })
  return d
}

export function pushable(options = {}) {
  const getNext = (buffer) => {
    const next = buffer.shift()
    if (next == null) return { done: true }
    if (next.error != null) throw next.error
    return { done: next.done === true, value: next.value }
  }
  let onEnd = options.onEnd
  let buffer = new FIFO()
  let pushable
  let onNext
  let ended
  let drain = defer()

  const waitNext = async () => {
    try {
      if (!buffer.isEmpty()) return getNext(buffer)
      if (ended) return { done: true }
      return await new Promise((resolve, reject) => {
        onNext = (next) => {
          onNext = null
          buffer.push(next)
          try { resolve(getNext(buffer)) } catch (err) { reject(err) }
          return pushable
        }
      })
    } finally {
      if (buffer.isEmpty()) {
        queueMicrotask(() => { drain.resolve(); drain = defer() })
      }
    }
  }
  const bufferNext = (next) => {
    if (onNext != null) return onNext(next)
    buffer.push(next)
    return pushable
  }
  const bufferError = (err) => {
    buffer = new FIFO()
    if (onNext != null) return onNext({ error: err })
    buffer.push({ error: err })
    return pushable
  }
  const push = (value) => {
    if (ended) return pushable
    if (options?.objectMode !== true && value?.byteLength == null) {
      throw new Error('objectMode was not true but tried to push non-Uint8Array value')
    }
    return bufferNext({ done: false, value })
  }
  const end = (err) => {
    if (ended) return pushable
    ended = true
    return err != null ? bufferError(err) : bufferNext({ done: true })
  }
  const _return = () => {
    buffer = new FIFO()
    end()
    return { done: true }
  }
  const _throw = (err) => {
    end(err)
    return { done: true }
  }
  pushable = {
    [Symbol.asyncIterator]() { return this },
    next: waitNext,
    return: _return,
    throw: _throw,
    push,
    end,
    get readableLength() { return buffer.size },
    onEmpty: async (options) => {
      const signal = options?.signal
      signal?.throwIfAborted()
      if (buffer.isEmpty()) return
      let cancel, listener
      if (signal != null) {
        cancel = new Promise((resolve, reject) => {
          listener = () => { reject(new Error('aborted')) }
          signal.addEventListener('abort', listener)
        })
      }
      try {
        await Promise.race(cancel ? [drain.promise, cancel] : [drain.promise])
      } finally {
        if (listener != null && signal != null) signal?.removeEventListener('abort', listener)
      }
    },
  }
  if (onEnd == null) return pushable

  const _pushable = pushable
  pushable = {
    [Symbol.asyncIterator]() { return this },
    next() { return _pushable.next() },
    throw(err) {
      _pushable.throw(err)
      if (onEnd != null) { onEnd(err); onEnd = undefined }
      return { done: true }
    },
    return() {
      _pushable.return()
      if (onEnd != null) { onEnd(); onEnd = undefined }
      return { done: true }
    },
    push,
    end(err) {
      _pushable.end(err)
      if (onEnd != null) { onEnd(err); onEnd = undefined }
      return pushable
    },
    get readableLength() { return _pushable.readableLength },
    onEmpty: (opts) => _pushable.onEmpty(opts),
  }
  return pushable
}
