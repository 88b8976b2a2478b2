// Stand-in for it-first 3.
export default function first(source) {
  if (source[Symbol.asyncIterator] != null) {
    return (async () => {
      for await (const entry of source) return entry
      return undefined
    })()
  }
  for (const entry of source) return entry
  return undefined
}
