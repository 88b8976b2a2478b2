// Stand-in for it-pipe 3.0.1: the same behaviour.
import { pushable } from './it-pushable.js'
import merge from './it-merge.js'

export function pipe(first, ...rest) {
  if (first == null) throw new Error('Empty pipeline')
  if (isDuplex(first)) {
    const duplex = first
    first = () => duplex.source
  } else if (isIterable(first) || isAsyncIterable(first)) {
    const source = first
    first = () => source
  }
  const fns = [first, ...rest]
  if (fns.length > 1 && isDuplex(fns[fns.length - 1])) {
    fns[fns.length - 1] = fns[fns.length - 1].sink
  }
  if (fns.length > 2) {
    for (let i = 1; i < fns.length - 1; i++) {
      if (isDuplex(fns[i])) fns[i] = duplexPipelineFn(fns[i])
    }
  }
  return rawPipe(...fns)
}

export function rawPipe(...fns) {
  let res
  while (fns.length > 0) res = fns.shift()(res)
  return res
}

const isAsyncIterable = (obj) => obj?.[Symbol.asyncIterator] != null
const isIterable = (obj) => obj?.[Symbol.iterator] != null
const isDuplex = (obj) => (obj == null ? false : obj.sink != null && obj.source != null)

function duplexPipelineFn(duplex) {
  return (source) => {
    const p = duplex.sink(source)
    if (p?.then != null) {
      const stream = pushable({ objectMode: true })
      p.then(() => { stream.end() }, (err) => { stream.end(err) })
      let sourceWrap
      const source = duplex.source
      if (isAsyncIterable(source)) {
        sourceWrap = async function* () { yield* source; stream.end() }
      } else if (isIterable(source)) {
        sourceWrap = function* () { yield* source; stream.end() }
      } else {
        throw new Error('Unknown duplex source type - must be iterable')
      }
      return merge(stream, sourceWrap())
    }
    return duplex.source
  }
}
