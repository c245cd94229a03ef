// the part of bn.js the client relies on, over BigInt
export default class BN {
  constructor(x, base, endian) {
    if (x instanceof BN) this.v = x.v;
    else if (typeof x === 'bigint') this.v = x;
    else if (typeof x === 'number') {
      if (!Number.isInteger(x) || Math.abs(x) >= 2 ** 53) throw new Error('Assertion failed');
      this.v = BigInt(x);
    } else if (typeof x === 'string') {
      const b = base === 'hex' ? 16 : base === undefined ? 10 : base;
      if (b === 16) this.v = x === '' ? 0n : BigInt('0x' + x);
      else if (b === 10) this.v = BigInt(x);
      else throw new Error('base');
    } else if (x && typeof x.length === 'number') {
      const a = [...x];
      if ((endian || base) === 'le') a.reverse();
      this.v = a.reduce((s, d) => s * 256n + BigInt(d), 0n);
    } else throw new Error('unsupported number');
  }
  toString(base) { return this.v.toString(base === 'hex' ? 16 : base || 10); }
  toNumber() { if (this.v >= 1n << 53n) throw new Error('Number can only safely store up to 53 bits'); return Number(this.v); }
  toArray(endian, length) {
    let h = (this.v < 0n ? -this.v : this.v).toString(16);
    if (h.length % 2) h = '0' + h;
    let a = h.match(/../g).map(x => parseInt(x, 16));
    if (length !== undefined) { if (a.length > length) throw new Error('byte array longer than desired length'); while (a.length < length) a.unshift(0); }
    if (endian === 'le') a.reverse();
    return a;
  }
  toArrayLike(T, endian, length) { return T.from(this.toArray(endian, length)); }
  toBuffer(endian, length) { return Buffer.from(this.toArray(endian, length)); }
  byteLength() { return this.v === 0n ? 0 : this.toArray().length; }
  bitLength() { return this.v === 0n ? 0 : this.v.toString(2).length; }
  isZero() { return this.v === 0n; }
  eq(o) { return this.v === new BN(o).v; }
  lt(o) { return this.v < new BN(o).v; }
  gt(o) { return this.v > new BN(o).v; }
  lte(o) { return this.v <= new BN(o).v; }
  gte(o) { return this.v >= new BN(o).v; }
  cmp(o) { const d = this.v - new BN(o).v; return d < 0n ? -1 : d > 0n ? 1 : 0; }
  like(v) { const r = Object.create(Object.getPrototypeOf(this)); r.v = v; return r; }
  clone() { return this.like(this.v); }
  add(o) { return this.like(this.v + new BN(o).v); }
  sub(o) { return this.like(this.v - new BN(o).v); }
  mul(o) { return this.like(this.v * new BN(o).v); }
  div(o) { return this.like(this.v / new BN(o).v); }
  mod(o) { return this.like(this.v % new BN(o).v); }
  addn(n) { return this.like(this.v + BigInt(n)); }
  subn(n) { return this.like(this.v - BigInt(n)); }
  muln(n) { return this.like(this.v * BigInt(n)); }
  divn(n) { return this.like(this.v / BigInt(n)); }
  shln(n) { return this.like(this.v << BigInt(n)); }
  ushln(n) { return this.shln(n); }
  shrn(n) { return this.like(this.v >> BigInt(n)); }
  ushrn(n) { return this.shrn(n); }
  or(o) { return this.like(this.v | new BN(o).v); }
  and(o) { return this.like(this.v & new BN(o).v); }
  andln(n) { return Number(this.v & BigInt(n)); }
  maskn(n) { return this.like(this.v & ((1n << BigInt(n)) - 1n)); }
  isNeg() { return this.v < 0n; }
  ltn(n) { return this.v < BigInt(n); }
  gtn(n) { return this.v > BigInt(n); }
  lten(n) { return this.v <= BigInt(n); }
  gten(n) { return this.v >= BigInt(n); }
  eqn(n) { return this.v === BigInt(n); }
  cmpn(n) { return this.cmp(new BN(n)); }
  static isBN(x) { return x instanceof BN; }
}
export { BN };
