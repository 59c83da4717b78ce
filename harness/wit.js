// Runs the generated witness calculators on many inputs in one process; output: JSON.
const fs = require("fs"), path = require("path");
const jobs = JSON.parse(fs.readFileSync(process.argv[2]));
(async () => {
  const out = [];
  for (const j of jobs) {
    const runs = [];
    let wc;
    const logs = [];
    const realLog = console.log, realErr = console.error;
    console.log = (...a) => logs.push(a.join(" "));
    console.error = (...a) => {};
    try {
      const builder = require(path.join(j.js, "witness_calculator.js"));
      const code = fs.readFileSync(path.join(j.js, j.name + ".wasm"));
      for (const inp of j.inputs) {
        logs.length = 0;
        try {
          wc = await builder(code);
          const input = (typeof inp === "object" && inp !== null && "raw" in inp) ? JSON.parse(inp.raw) : inp;
          const w = await wc.calculateWitness(input, 0);
          const r = { ok: true, w: w.map(String), log: logs.slice() };
          if (j.bin) {
            const wc2 = await builder(code);
            const b = await wc2.calculateWTNSBin(input, 0);
            r.bin = Buffer.from(b).toString("base64");
          }
          runs.push(r);
        } catch (e) {
          runs.push({ ok: false, err: String(e && e.message || e), log: logs.slice() });
        }
      }
    } catch (e) {
      runs.push({ ok: false, fatal: true, err: String(e && e.stack || e), log: [] });
    }
    console.log = realLog; console.error = realErr;
    out.push({ id: j.id, runs });
  }
  process.stdout.write(JSON.stringify(out));
})();
