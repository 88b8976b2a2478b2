// Stand-in for uint8arraylist 2.4.8: the parts in use, the same behaviour.
const symbol = Symbol.for('@achingbrain/uint8arraylist')

export function isUint8ArrayList(value) {
  return Boolean(value?.[symbol])
}

export class Uint8ArrayList {
  constructor(...data) {
    Object.defineProperty(this, symbol, { value: true })
    this.bufs = []
    this.length = 0
    if (data.length > 0) this.appendAll(data)
  }
  * [Symbol.iterator]() { yield* this.bufs }
  get byteLength() { return this.length }
  append(...bufs) { this.appendAll(bufs) }
  appendAll(bufs) {
    let length = 0
    for (const buf of bufs) {
      if (buf instanceof Uint8Array) {
        length += buf.byteLength
        this.bufs.push(buf)
      } else if (isUint8ArrayList(buf)) {
        length += buf.byteLength
        this.bufs.push(...buf.bufs)
      } else {
        throw new Error('Could not append value, must be an Uint8Array or a Uint8ArrayList')
      }
    }
    this.length += length
  }
  get(index) {
    const r = this.find(index)
    return r.buf[r.index]
  }
  set(index, value) {
    const r = this.find(index)
    r.buf[r.index] = value
  }
  find(index) {
    if (index == null || index < 0) throw new RangeError('index is out of bounds')
    let offset = 0
    for (const buf of this.bufs) {
      if (index < offset + buf.byteLength) return { buf, index: index - offset }
      offset += buf.byteLength
    }
    throw new RangeError('index is out of bounds')
  }
  consume(bytes) {
    bytes = Math.trunc(bytes)
    if (Number.isNaN(bytes) || bytes <= 0) return
    if (bytes === this.byteLength) {
      this.bufs = []
      this.length = 0
      return
    }
    while (this.bufs.length > 0) {
      if (bytes >= this.bufs[0].byteLength) {
        bytes -= this.bufs[0].byteLength
        this.length -= this.bufs[0].byteLength
        this.bufs.shift()
      } else {
        this.bufs[0] = this.bufs[0].subarray(bytes)
        this.length -= bytes
        break
      }
    }
  }
  slice(begin, end) {
    const { bufs, length } = this._sub(begin, end)
    return concat(bufs, length)
  }
  subarray(begin, end) {
    const { bufs, length } = this._sub(begin, end)
    if (bufs.length === 1) return bufs[0]
    return concat(bufs, length)
  }
  sublist(begin, end) {
    const { bufs, length } = this._sub(begin, end)
    const list = new Uint8ArrayList()
    list.length = length
    list.bufs = [...bufs]
    return list
  }
  _sub(begin = 0, end = this.length) {
    if (begin < 0) begin = this.length + begin
    if (end < 0) end = this.length + end
    if (begin < 0 || end > this.length) throw new RangeError('index is out of bounds')
    if (begin === end) return { bufs: [], length: 0 }
    if (begin === 0 && end === this.length) return { bufs: this.bufs, length: this.length }
    const bufs = []
    let offset = 0
    for (const buf of this.bufs) {
      const start = Math.max(begin - offset, 0)
      const stop = Math.min(end - offset, buf.byteLength)
      if (start < stop) bufs.push(buf.subarray(start, stop))
      if (offset + buf.byteLength >= end) break
      offset += buf.byteLength
    }
    return { bufs, length: end - begin }
  }
  getUint32(byteOffset, littleEndian) {
    const buf = this.subarray(byteOffset, byteOffset + 4)
    return new DataView(buf.buffer, buf.byteOffset, buf.byteLength).getUint32(0, littleEndian)
  }
  setUint32(byteOffset, value, littleEndian) {
    const buf = new Uint8Array(4)
    new DataView(buf.buffer).setUint32(0, value, littleEndian)
    this.write(buf, byteOffset)
  }
  write(buf, offset = 0) {
    for (let i = 0; i < buf.length; i++) this.set(offset + i, buf[i])
  }
  static fromUint8Arrays(bufs, length) {
    const list = new Uint8ArrayList()
    list.bufs = bufs
    list.length = length ?? bufs.reduce((a, b) => a + b.byteLength, 0)
    return list
  }
}

function concat(bufs, length) {
  const out = new Uint8Array(length)
  let offset = 0
  for (const buf of bufs) {
    out.set(buf, offset)
    offset += buf.byteLength
  }
  return out
}
