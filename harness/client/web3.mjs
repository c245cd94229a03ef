// the part of @solana/web3.js the client relies on; transactions are recorded, not sent
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const fromBase58 = s => {
  let n = 0n;
  for (const c of s) { const i = A.indexOf(c); if (i < 0) throw new Error('Non-base58 character'); n = n * 58n + BigInt(i); }
  return Buffer.from(n.toString(16).padStart(64, '0'), 'hex');
};
export class PublicKey {
  constructor(x) {
    const b = x instanceof PublicKey ? x.b : typeof x === 'string' ? fromBase58(x) : Buffer.from(x);
    if (b.length !== 32) throw new Error('Invalid public key input');
    this.b = Buffer.from(b);
  }
  equals(o) { return this.b.equals(o.b); }
  toBuffer() { return Buffer.from(this.b); }
  toBytes() { return Buffer.from(this.b); }
  toString() { return this.b.toString('hex'); }
  toBase58() { return this.toString(); }
  toJSON() { return this.toString(); }
  // the real derivation is Solana's; the harness knows the answer for the one seed and program it asks about
  static async findProgramAddress(seeds, programId) { return PublicKey.findProgramAddressSync(seeds, programId); }
  static findProgramAddressSync(seeds, programId) {
    const k = Buffer.concat(seeds.map(s => Buffer.from(s))).toString('hex') + ':' + programId.toString();
    if (!(k in PublicKey.derived)) return [new PublicKey(Buffer.alloc(32, 0xee)), 255];
    return PublicKey.derived[k];
  }
}
PublicKey.derived = {};
export class Account { constructor(k) { this.publicKey = k; } }
export class Keypair { constructor(k) { this.publicKey = k; } }
export class TransactionInstruction {
  constructor(o) { this.keys = o.keys; this.programId = o.programId; this.data = o.data || Buffer.alloc(0); }
}
export class Transaction {
  constructor() { this.instructions = []; }
  add(...x) { for (const i of x) this.instructions.push(...(i instanceof Transaction ? i.instructions : [i])); return this; }
}
export const SystemProgram = { createAccount: o => ({ system: 'createAccount', ...o }), programId: new PublicKey(Buffer.alloc(32)) };
export class Connection {}
export const sent = [];
export async function sendAndConfirmTransaction(connection, transaction, signers, options) { sent.push({ transaction, signers }); return 'signature'; }
