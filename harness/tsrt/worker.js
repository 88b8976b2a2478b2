// Runs cases (JSON lines on standard input) on the TypeScript code and prints
// what happened (JSON lines). The Go tests make the cases and judge.
import './clock.js'
import './ports.js'
import readline from 'node:readline'
import { run } from './clock.js'
import { kinds } from './kinds.js'

let stray = []
process.on('unhandledRejection', (e) => { stray.push('unhandled rejection: ' + (e?.stack ?? e)) })
process.on('uncaughtException', (e) => { stray.push('uncaught exception: ' + (e?.stack ?? e)) })

const text = (e) => (e instanceof Error ? e.stack ?? e.message : String(e))

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity })
for await (const line of rl) {
  const { kind, c } = JSON.parse(line)
  stray = []
  const rec = {}
  let res
  try {
    res = await run(() => Promise.resolve().then(() => kinds[kind](c, rec)))
  } catch (e) {
    res = { error: e }
  }
  const out = { rec, stray }
  if (res.hang) out.hang = true
  if (res.error !== undefined) out.error = text(res.error)
  process.stdout.write(JSON.stringify(out) + '\n')
}
