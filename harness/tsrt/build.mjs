// Bundles worker.js (or another entry) with the TypeScript code of the tree: node build.mjs REPO OUT [ENTRY]
import { createRequire } from 'node:module'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const require = createRequire('/opt/veriftools/node/package.json')
const esbuild = require('esbuild')
const here = path.dirname(fileURLToPath(import.meta.url))
const [repo, out, entry = 'worker.js'] = process.argv.slice(2)
const shims = {
  'it-pushable': 'it-pushable.js',
  'it-pipe': 'it-pipe.js',
  'it-first': 'it-first.js',
  'event-iterator': 'event-iterator.js',
  'uint8arraylist': 'uint8arraylist.js',
  '@libp2p/logger': 'logger.js',
  '@libp2p/interface': 'empty.js',
  '@aptre/protobuf-es-lite': 'protobuf-es-lite.js',
  '@aptre/protobuf-es-lite/protoplugin': 'protoplugin.js',
  '@aptre/protobuf-es-lite/protoplugin/ecmascript': 'protoplugin.js',
  '@chainsafe/libp2p-yamux': 'yamux.js',
  '@aptre/it-ws/duplex': 'it-ws.js',
  '@aptre/it-ws/web-socket': 'empty.js',
  'it-stream-types': 'empty.js',
}
const plugin = {
  name: 'shims',
  setup(b) {
    if (entry === 'interop.js') b.onResolve({ filter: /^\.\/clock\.js$/ }, () => ({ path: path.join(here, 'clock-real.js') }))
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (a.path in shims) return { path: path.join(here, 'shims', shims[a.path]) }
      if (a.path === 'starpc') return { path: path.join(repo, 'index.ts') }
      if (a.path.startsWith('repo:')) return { path: path.join(repo, a.path.slice(5)) }
      if (a.path.startsWith('node:')) return { path: a.path, external: true }
      return undefined
    })
  },
}
await esbuild.build({
  entryPoints: [path.join(here, entry)],
  bundle: true, platform: 'node', format: 'esm', outfile: out, plugins: [plugin], logLevel: 'error', target: 'node22',
  tsconfigRaw: { compilerOptions: { target: 'ES2022', useDefineForClassFields: true } },
})
