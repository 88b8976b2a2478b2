// Stand-in for @libp2p/logger.
export function defaultLogger() {
  const f = () => {}
  f.error = f
  f.trace = f
  f.enabled = false
  return { forComponent: () => f }
}
