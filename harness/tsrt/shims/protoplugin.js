// Stand-in for the plugin framework of @aptre/protobuf-es-lite: what the
// generator of this repository uses of it.
import path from 'node:path'

export const createEcmaScriptPlugin = (x) => x
export const runNodeJs = () => {}
export const createImportSymbol = (name, from, typeOnly = false) => ({ kind: 'es_symbol', name, from, typeOnly, id: `import("${from}").${name}`, toTypeOnly() { return createImportSymbol(name, from, true) } })

const RUNTIME = '@aptre/protobuf-es-lite'

function relative(from, to) {
  if (!to.startsWith('/')) return to
  const rel = path.posix.relative(path.posix.dirname('/' + from), to)
  return rel.startsWith('.') ? rel : './' + rel
}

class GeneratedFile {
  constructor(name) {
    this.name = name
    this.parts = []
    this.head = ''
  }
  preamble(file) {
    this.head = `// @generated by protoc-gen-es-starpc none\n// @generated from file ${file.name}.proto\n/* eslint-disable */\n\n`
  }
  print(...args) {
    if (Array.isArray(args[0]) && 'raw' in args[0]) {
      const [s, ...v] = args
      args = s.flatMap((x, i) => (i < v.length ? [x, v[i]] : [x]))
    }
    this.parts.push(...args.flat(Infinity), '\n')
  }
  string(s) { return JSON.stringify(s) }
  import(name, from) { return createImportSymbol(name, from) }
  exportDecl(declaration, name) { return ['export ' + declaration + ' ', name] }
  jsDoc(desc, indentation = '') {
    const text = typeof desc === 'string' ? desc : (desc.comment ? desc.comment + '\n\n' : '') + '@generated from ' + desc.toString()
    return indentation + '/**\n' + text.split('\n').map((l) => indentation + ' *' + (l ? ' ' + l.replaceAll('*/', '*\\/') : '') + '\n').join('') + indentation + ' */'
  }
  render() {
    const ids = new Map()
    const taken = new Set()
    const from = new Map()
    const symbol = (x) => (x.kind === 'message' ? x.symbol : x)
    for (const p of this.parts) {
      const s = symbol(p)
      if (s == null || s.kind !== 'es_symbol' || ids.has(s.id)) continue
      let id = s.name
      for (let i = 1; taken.has(id); i++) id = s.name + '$' + i
      taken.add(id)
      ids.set(s.id, id)
      const f = relative(this.name, s.from)
      if (!from.has(f)) from.set(f, [])
      from.get(f).push(id === s.name ? id : `${s.name} as ${id}`)
    }
    const body = this.parts.map((p) => {
      if (p == null) throw new Error('cannot print ' + p)
      const s = symbol(p)
      if (s.kind === 'es_symbol') return ids.get(s.id)
      if (typeof p === 'object') throw new Error('cannot print ' + JSON.stringify(p))
      return String(p)
    }).join('')
    return this.head + [...from].map(([f, n]) => `import { ${n.join(', ')} } from ${JSON.stringify(f)}\n`).join('') + '\n' + body
  }
}

// createSchema returns a schema of the files.
export function createSchema(files) {
  const out = []
  return {
    files,
    allFiles: files,
    out,
    runtime: { MethodKind: createImportSymbol('MethodKind', RUNTIME), MethodIdempotency: createImportSymbol('MethodIdempotency', RUNTIME) },
    generateFile(name) {
      const f = new GeneratedFile(name)
      out.push(f)
      return f
    },
  }
}
