/* build.mjs IN.mts OUT.mjs: what tsc makes of it, without its types. */
import fs from 'fs'
import { createRequire } from 'module'
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const r = ts.transpileModule(fs.readFileSync(process.argv[2], 'utf8'), { reportDiagnostics: true, fileName: 'resdet.mts', compilerOptions: { module: ts.ModuleKind.ES2022, target: ts.ScriptTarget.ES2022, verbatimModuleSyntax: true, isolatedModules: true } });
if(r.diagnostics.length) { console.log(r.diagnostics.map(d => d.messageText)); process.exit(1); }
fs.writeFileSync(process.argv[3], r.outputText);
