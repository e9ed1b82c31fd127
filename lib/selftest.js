'use strict';
// setup: nothing to compile; prove that /repo's packages can be built and loaded, and that the engine enumerates what it should.
const { build, removeScratch } = require('./build');
const { explore } = require('./explore');
(async () => {
  const b = build();
  for (const p of ['io-ts-http', 'response', 'typed-express-router', 'express-wrapper', 'superagent-wrapper', 'openapi-generator']) b.pkg(p);
  const seen = new Set();
  const st = await explore((c) => { let s = ''; for (let i = 0; i < 3; i++) s += c.choose(3, 'x'); seen.add(s); }, 0);
  const st2 = await explore((c) => { for (let i = 0; i < 3; i++) c.choose(3, 'x'); }, 0, { deviations: 1 });
  const st3 = await explore((c) => { for (let i = 0; i < 3; i++) c.choose(3, 'x'); }, 0, { fixed: [2] });
  let split = 0;
  for (let k = 0; k < 5; k++) split += (await explore((c) => { for (let i = 0; i < 3; i++) c.choose(3, 'x'); }, 0, { deviations: 2, part: [k, 5] })).executions;
  if (split !== 19) throw new Error('engine self-test failed');
  if (st.executions !== 27 || seen.size !== 27 || st2.executions !== 7 || st3.executions !== 9) throw new Error('engine self-test failed');
  removeScratch();
  console.log('ok');
})().catch((e) => { console.error(e); process.exit(1); });
