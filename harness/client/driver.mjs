// answers one line of JSON with one line of JSON, by calling the client
import readline from 'node:readline';
import * as client from 'client';
import { PublicKey, Account, sent } from '@solana/web3.js';
const { Numberu64, TokenSwap, TokenSwapLayout } = client;
const pk = h => new PublicKey(Buffer.from(h, 'hex'));
const hex = b => Buffer.from(b).toString('hex');
// a number as a caller may give it
const num = s => (s.startsWith('n') ? Number(s.slice(1)) : new Numberu64(s));
const conn = q => ({
  getAccountInfo: async k => (q.account === null || !k.equals(pk(q.swap)) ? null : { data: Buffer.from(q.account, 'hex'), owner: pk(q.owner), executable: false, lamports: 1 }),
  getMinimumBalanceForRentExemption: async n => n * 7,
});
const ix = i => i.system ? { system: i.system, from: i.fromPubkey.toString(), to: i.newAccountPubkey.toString(), lamports: i.lamports, space: i.space, program: i.programId.toString() }
  : { keys: i.keys.map(k => [k.pubkey.toString(), k.isSigner, k.isWritable]), program: i.programId.toString(), data: hex(i.data) };
const tx = () => { const t = sent.splice(0); if (t.length !== 1) throw new Error('sent ' + t.length); return { ixs: t[0].transaction.instructions.map(ix), signers: t[0].signers.map(s => s.publicKey.toString()) }; };
const fields = t => {
  const r = {};
  for (const k of ['tokenSwap', 'swapProgramId', 'tokenProgramId', 'poolToken', 'feeAccount', 'authority', 'tokenAccountA', 'tokenAccountB', 'mintA', 'mintB',
    'tradeFeeNumerator', 'tradeFeeDenominator', 'ownerTradeFeeNumerator', 'ownerTradeFeeDenominator', 'ownerWithdrawFeeNumerator', 'ownerWithdrawFeeDenominator', 'hostFeeNumerator', 'hostFeeDenominator', 'curveType']) r[k] = t[k].toString();
  return r;
};
async function load(q) {
  PublicKey.derived = { [q.swap + ':' + q.program]: [pk(q.auth), 254] };
  return await TokenSwap.loadTokenSwap(conn(q), pk(q.swap), pk(q.program), new Account(pk(q.payer)));
}
const todo = {
  async number(q) {
    const b = num(q.n).toBuffer();
    return { bytes: hex(b), back: Numberu64.fromBuffer(b).toString() };
  },
  async bytes(q) { return { n: Numberu64.fromBuffer(Buffer.from(q.b, 'hex')).toString() }; },
  async layout(q) {
    const d = TokenSwapLayout.decode(Buffer.from(q.account, 'hex'));
    const r = {};
    for (const [k, v] of Object.entries(d)) r[k] = typeof v === 'number' ? v : hex(v);
    const b = Buffer.alloc(TokenSwapLayout.span);
    TokenSwapLayout.encode(d, b);
    return { fields: r, span: TokenSwapLayout.span, again: hex(b) };
  },
  async load(q) { return fields(await load(q)); },
  async call(q) {
    sent.length = 0;
    const t = await load(q);
    await t[q.method](...q.args.map(a => a === null ? null : a.key ? pk(a.key) : a.account ? new Account(pk(a.account)) : num(a.num)));
    return tx();
  },
  async create(q) {
    sent.length = 0;
    const k = q.keys;
    const t = await TokenSwap.createTokenSwap(conn({ account: null }), new Account(pk(q.payer)), new Account(pk(k.swap)), pk(k.authority), pk(k.a), pk(k.b), pk(k.lp), pk(k.ma), pk(k.mb), pk(k.fee), pk(k.dest), pk(q.program), pk(k.token),
      ...q.fees.map(Number), q.curve, q.param === null ? undefined : new Numberu64(q.param));
    return { tx: tx(), fields: fields(t) };
  },
};
readline.createInterface({ input: process.stdin }).on('line', async line => {
  let r;
  try { const q = JSON.parse(line); r = await todo[q.do](q); } catch (e) { r = { error: String(e && e.message || e) }; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
