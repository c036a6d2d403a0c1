// argv: files.json (array of paths), out.json: for each what no Swift compiler takes, or null
import * as fs from 'fs';
import * as R from './swift.mjs';
fs.writeFileSync(process.argv[3], JSON.stringify(JSON.parse(fs.readFileSync(process.argv[2], 'utf8')).map(f => {
  try { R.load_module(fs.readFileSync(f, 'utf8')); return null; } catch (e) { return e instanceof R.BuildError ? e.message : null; }
})));
