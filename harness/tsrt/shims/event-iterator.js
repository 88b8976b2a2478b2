// Stand-in for event-iterator 2.0.0: the same behaviour.
class EventQueue {
  constructor() {
    this.pullQueue = []
    this.pushQueue = []
    this.isStopped = false
  }
  push = (value) => {
    if (this.isStopped) return
    const resolution = { value, done: false }
    if (this.pullQueue.length) {
      const placeholder = this.pullQueue.shift()
      if (placeholder) placeholder.resolve(resolution)
    } else {
      this.pushQueue.push(Promise.resolve(resolution))
    }
  }
  stop = () => {
    if (this.isStopped) return
    this.isStopped = true
    this.remove()
    for (const placeholder of this.pullQueue) placeholder.resolve({ value: undefined, done: true })
    this.pullQueue.length = 0
  }
  fail = (error) => {
    if (this.isStopped) return
    this.isStopped = true
    this.remove()
    if (this.pullQueue.length) {
      for (const placeholder of this.pullQueue) placeholder.reject(error)
      this.pullQueue.length = 0
    } else {
      const rejection = Promise.reject(error)
      rejection.catch(() => {})
      this.pushQueue.push(rejection)
    }
  }
  remove() {
    Promise.resolve().then(() => {
      if (this.removeCallback) this.removeCallback()
    })
  }
  [Symbol.asyncIterator]() {
    return {
      next: () => {
        const result = this.pushQueue.shift()
        if (result) return result
        if (this.isStopped) return Promise.resolve({ value: undefined, done: true })
        return new Promise((resolve, reject) => { this.pullQueue.push({ resolve, reject }) })
      },
      return: () => {
        this.isStopped = true
        this.pushQueue.length = 0
        this.remove()
        return Promise.resolve({ value: undefined, done: true })
      },
    }
  }
}

export class EventIterator {
  constructor(listen) {
    const queue = new EventQueue()
    queue.removeCallback = listen(queue) || (() => {})
    this[Symbol.asyncIterator] = () => queue[Symbol.asyncIterator]()
    Object.freeze(this)
  }
}
export default EventIterator
