// usage: node drive.mjs SDK CASES OUT
// Runs the calls of CASES (one JSON per line) through the published SDK's own clients, message
// composers and query hooks, against stand-ins for the wallet and the cache that record what
// they are handed, and writes each case with what was recorded.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";

const [sdk, casesFile, out] = process.argv.slice(2);
const require = createRequire("/opt/veriftools/node/package.json");
const esbuild = require("esbuild");

const stubs = {
  "@cosmjs/encoding": "export const toUtf8 = s => new TextEncoder().encode(s);",
  "@tanstack/react-query": "export const useQuery = (key, fn, options) => ({ key, fn, options });",
  "cosmjs-types/cosmwasm/wasm/v1/tx": "export const MsgExecuteContract = { fromPartial: o => o };",
};
const built = await esbuild.build({
  entryPoints: [path.join(sdk, "src/index.ts")],
  bundle: true,
  write: false,
  format: "cjs",
  platform: "node",
  logLevel: "error",
  plugins: [{
    name: "stubs",
    setup(b) {
      b.onResolve({ filter: /^[^./]/ }, a => (a.kind === "entry-point" ? undefined : { path: a.path, namespace: "stub" }));
      b.onLoad({ filter: /.*/, namespace: "stub" }, a => ({ contents: stubs[a.path] ?? "module.exports = {};", loader: "js" }));
    },
  }],
});
const mod = { exports: {} };
new Function("module", "exports", "require", built.outputFiles[0].text)(mod, mod.exports, require);
const contracts = mod.exports.default ?? mod.exports.contracts;

const upper = s => s[0].toUpperCase() + s.slice(1);
const plain = x => JSON.parse(JSON.stringify(x ?? null));

async function run(via, f, got) {
  try {
    got.push({ via, ...plain(await f()) });
  } catch (e) {
    got.push({ via, error: String(e) });
  }
}

const lines = [];
for (const line of fs.readFileSync(casesFile, "utf8").split("\n").filter(Boolean)) {
  const c = JSON.parse(line);
  const k = contracts[c.contract];
  const got = [];
  const clone = () => plain(c.args);
  if (c.kind === "ExecuteMsg") {
    const wallet = { execute: async (sender, address, msg, fee, memo, funds) => ({ sender, address, msg, fee, memo, funds }) };
    await run("client", async () => {
      const a = clone();
      return new k[`${c.contract}Client`](wallet, c.sender, c.address)[c.method](...a, c.fee, c.memo, plain(c.funds));
    }, got);
    await run("message composer", async () => {
      const m = new k[`${c.contract}MessageComposer`](c.sender, c.address)[c.method](...clone(), plain(c.funds));
      const v = m.value;
      return { sender: v.sender, address: v.contract, msg: JSON.parse(new TextDecoder().decode(v.msg)), funds: v.funds, typeUrl: m.typeUrl };
    }, got);
  } else {
    const chain = { queryContractSmart: async (address, msg) => ({ address, msg }) };
    const client = () => new k[`${c.contract}QueryClient`](chain, c.address);
    await run("query client", () => client()[c.method](...clone()), got);
    const wallet = { ...chain };
    await run("signing client's query", () => new k[`${c.contract}Client`](wallet, c.sender, c.address)[c.method](...clone()), got);
    await run("query hook", async () => {
      const h = k[`use${c.contract}${upper(c.method)}Query`]({ client: client(), args: clone()[0] ?? {}, options: c.options });
      return { ...(await h.fn()), key: h.key, options: h.options };
    }, got);
  }
  lines.push(JSON.stringify({ ...c, got }));
}
fs.writeFileSync(out, lines.join("\n"));
