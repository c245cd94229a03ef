// the part of buffer-layout the client relies on
class Layout {
  constructor(span, property) { this.span = span; this.property = property; }
  getSpan() { return this.span; }
}
class UInt extends Layout {
  decode(b, o = 0) { return b.readUIntLE(o, this.span); }
  encode(v, b, o = 0) { b.writeUIntLE(v, o, this.span); return this.span; }
}
class NearUInt64 extends Layout {
  constructor(p) { super(8, p); }
  decode(b, o = 0) { return b.readUInt32LE(o + 4) * 2 ** 32 + b.readUInt32LE(o); }
  encode(v, b, o = 0) {
    const hi = Math.floor(v / 2 ** 32);
    b.writeUInt32LE(v - hi * 2 ** 32, o);
    b.writeUInt32LE(hi, o + 4);
    return 8;
  }
}
class Blob extends Layout {
  decode(b, o = 0) { if (o + this.span > b.length) throw new RangeError('blob'); return b.slice(o, o + this.span); }
  encode(v, b, o = 0) {
    if (!(v && v.length === this.span)) throw new TypeError(`Blob.encode requires (length ${this.span}) Buffer as src`);
    if (o + this.span > b.length) throw new RangeError('encoding overruns Buffer');
    b.write(Buffer.from(v).toString('hex'), o, this.span, 'hex');
    return this.span;
  }
}
class Structure extends Layout {
  constructor(fields, p) { super(fields.reduce((s, f) => s + f.span, 0), p); this.fields = fields; }
  decode(b, o = 0) {
    const r = {};
    for (const f of this.fields) { if (f.property !== undefined) r[f.property] = f.decode(b, o); o += f.span; }
    return r;
  }
  encode(v, b, o = 0) {
    const o0 = o;
    let last = 0, lastO = o;
    for (const f of this.fields) {
      lastO = o; last = f.span;
      if (f.property !== undefined && v[f.property] !== undefined) last = f.encode(v[f.property], b, o);
      o += f.span;
    }
    return lastO + last - o0;
  }
}
export const u8 = p => new UInt(1, p);
export const u16 = p => new UInt(2, p);
export const u32 = p => new UInt(4, p);
export const nu64 = p => new NearUInt64(p);
export const blob = (n, p) => new Blob(n, p);
export const struct = (f, p) => new Structure(f, p);
export const offset = () => { throw new Error('not modelled'); };
export { Layout, UInt, Blob, Structure };
export default { Layout, UInt, Blob, Structure, u8, u16, u32, nu64, blob, struct, offset };
