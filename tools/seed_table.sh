#!/bin/bash
# Rewrites the table of planted bugs in DESIGN.md (between the heading and "Beyond these").
cd "$(dirname "$0")/.." && node -e '
const fs=require("fs");const rows=fs.readdirSync("seeded").sort().map(s=>{const m=JSON.parse(fs.readFileSync("seeded/"+s+"/meta.json"));return "| "+s+" | "+m.property+" | "+m.needs.replace(/\|/g,"/")+" |"});
const t="| change | caught by | needs |\n|---|---|---|\n"+rows.join("\n")+"\n";
let d=fs.readFileSync("DESIGN.md","utf8");const a=d.indexOf("(quick tier):\n")+14,b=d.indexOf("Beyond these,");
fs.writeFileSync("DESIGN.md",d.slice(0,a)+"\n"+t+"\n"+d.slice(b));'
