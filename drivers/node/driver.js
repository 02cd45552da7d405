// Makes the calls that arrive on standard input and answers on standard output.
const fs = require('fs')
const lib = require(process.argv[2])

let buf = Buffer.alloc(1 << 20), lo = 0, hi = 0
function need(n) {
  if (hi - lo >= n) return true
  if (buf.length - lo < n) {
    const b = Buffer.alloc(Math.max(n + (1 << 20), buf.length))
    buf.copy(b, 0, lo, hi)
    buf = b
    hi -= lo
    lo = 0
  }
  while (hi - lo < n) {
    let k
    try {
      k = fs.readSync(0, buf, hi, buf.length - hi)
    } catch (e) {
      if (e.code === 'EAGAIN') continue
      throw e
    }
    if (k === 0) return false
    hi += k
  }
  return true
}
const u8 = () => (need(1), buf[lo++])
const i32 = () => (need(4), (lo += 4), buf.readInt32BE(lo - 4))
const u64 = () => (need(8), (lo += 8), buf.readBigUInt64BE(lo - 8))
let style = 0
let salt = 0
// larger arrays that calls were given views of, with copies
let given = []
const touched = () => {
  const t = given.some(([a, b]) => !b.equals(a))
  given = []
  return t
}
function bytes() {
  const n = i32()
  if (n < 0) return null
  need(n)
  const s = buf.subarray(lo, lo + n)
  lo += n
  salt++
  switch (style === 3 ? salt % 3 : style) {
    case 1: { // a view somewhere inside a larger array
      const off = 1 + (salt * 7) % 41
      // sometimes with valid bytes enough for a whole blob or cell behind it
      const tail = salt % 2 ? 13 : n < 4096 ? 2100 : 131200
      const big = new Uint8Array(n + off + tail).fill(salt % 2 ? 0xa5 : 0x11)
      big.set(s, off)
      given.push([big, Buffer.from(big)])
      return big.subarray(off, off + n)
    }
    case 2: // a pooled node Buffer
      return Buffer.from(s)
    default:
      return new Uint8Array(s)
  }
}
function list() {
  const n = i32()
  if (n < 0) return null
  const l = []
  for (let i = 0; i < n; i++) l.push(bytes())
  return l
}
function args() {
  const a = { op: u8() }
  a.blob = bytes()
  a.coms = list()
  const n = i32()
  a.idx = null
  if (n >= 0) {
    a.idx = []
    for (let i = 0; i < n; i++) {
      const f = u8()
      const h = u64(), l = u64()
      let v = (h << 64n) + l
      if (f & 2) v += 1n << 200n
      a.idx.push(f & 1 ? -v : v)
    }
  }
  a.cells = list()
  a.proofs = list()
  return a
}
let parts = []
const p8 = (x) => parts.push(Buffer.from([x]))
function p32(x) {
  const b = Buffer.alloc(4)
  b.writeInt32BE(x)
  parts.push(b)
}
function put(b) {
  if (!(b instanceof Uint8Array)) return p32(-1)
  p32(b.length)
  parts.push(Buffer.from(b))
}
function putList(l) {
  p32(l.length)
  l.forEach(put)
}
function answer(op, r) {
  if (op === 0) {
    p8(0)
    put(r)
  } else if (op === 1 || op === 2) {
    p8(1)
    putList(r.cells)
    putList(r.proofs)
  } else if (op === 4) {
    p8(5)
    putList(r)
  } else if (r === true || r === false) {
    p8(2)
    p8(r ? 1 : 0)
  } else {
    p8(9)
  }
}
function fail(e) {
  p8(3)
  const isError = e instanceof Error
  put(Buffer.from(isError ? String(e.message) : 'not an Error: ' + String(e)))
}
function sync(c, a) {
  switch (a.op) {
    case 0: return c.blobToKzgCommitment(a.blob)
    case 1: return c.computeCellsAndKzgProofs(a.blob)
    case 2: return c.recoverCellsAndKzgProofs(a.idx, a.cells)
    case 3: return c.verifyCellKzgProofBatch(a.coms, a.idx, a.cells, a.proofs)
    case 4: return c.computeCells(a.blob)
  }
}
function later(c, a) {
  switch (a.op) {
    case 0: return c.asyncBlobToKzgCommitment(a.blob)
    case 1: return c.asyncComputeCellsAndKzgProofs(a.blob)
    case 2: return c.asyncRecoverCellsAndKzgProofs(a.idx, a.cells)
    case 3: return c.asyncVerifyCellKzgProofBatch(a.coms, a.idx, a.cells, a.proofs)
    case 4: return c.asyncComputeCells(a.blob)
  }
}
function flush() {
  let b = Buffer.concat(parts)
  parts = []
  while (b.length) {
    try {
      b = b.subarray(fs.writeSync(1, b))
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e
    }
  }
}
async function main() {
  const slots = []
  while (need(3)) {
    const cmd = u8(), slot = u8()
    const s = u8()
    style = s & 3
    const asynchronous = (s & 0x80) !== 0
    switch (cmd) {
      case 0: {
        const a = args()
        let r, e
        try {
          r = asynchronous ? await later(slots[slot], a) : sync(slots[slot], a)
        } catch (x) {
          e = x
        }
        if (touched()) p8(10)
        else if (e !== undefined) fail(e)
        else answer(a.op, r)
        break
      }
      case 1: {
        const flavour = u8(), threads = u8()
        try {
          slots[slot] = flavour === 2 ? new lib.DasContextJs() : lib.DasContextJs.create({ usePrecomp: flavour === 1, numThreads: threads })
          p8(4)
        } catch (e) {
          fail(e)
        }
        break
      }
      case 2:
        u8()
        slots[slot] = undefined
        p8(4)
        break
      case 6: { // the same call again and again
        const n = i32()
        const a = args()
        const one = async () => {
          let r, e
          try {
            r = asynchronous ? await later(slots[slot], a) : sync(slots[slot], a)
          } catch (x) {
            e = x
          }
          if (e !== undefined) fail(e)
          else answer(a.op, r)
          const b = Buffer.concat(parts)
          parts = []
          return b
        }
        const first = await one()
        let same = true
        for (let i = 1; i < n && same; i++) same = first.equals(await one())
        if (touched()) p8(10)
        else if (!same) p8(11)
        else parts.push(first)
        break
      }
      case 7: { // memory in use
        for (let i = 0; i < 3; i++) {
          global.gc()
          await new Promise((f) => setImmediate(f))
        }
        const m = process.memoryUsage()
        p8(0)
        p32(8)
        const b = Buffer.alloc(8)
        b.writeBigInt64BE(BigInt(m.heapUsed + m.external))
        parts.push(b)
        break
      }
      case 3:
        if (global.gc) global.gc()
        p8(4)
        break
      case 4: {
        const n = i32()
        const as = []
        for (let i = 0; i < n; i++) as.push(args())
        const ps = as.map((a) => {
          try {
            return later(slots[slot], a)
          } catch (e) {
            return Promise.reject(e)
          }
        })
        // the context and the arguments are no longer needed by the caller
        const ops = as.map((a) => a.op)
        if (asynchronous) {
          as.length = 0
          slots[slot] = undefined
          if (global.gc) global.gc()
        }
        const rs = await Promise.allSettled(ps)
        if (touched()) p8(10)
        rs.forEach((r, i) => (r.status === 'fulfilled' ? answer(ops[i], r.value) : fail(r.reason)))
        break
      }
    }
    flush()
  }
}
main().then(() => process.exit(0), (e) => { console.error(e); process.exit(3) })
