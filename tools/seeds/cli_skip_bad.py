ID = "C01-bad-record-skipped"
PROP = "C01"
EDITS = [("unreal_pak_cli/src/main.rs", '''                        eprintln!("Error reading record {i}: {file_name:?}! Error: {err}");
                        exit(1);
                    }
                }
            }
        }
        Commands::Create''', '''                        eprintln!("Error reading record {i}: {file_name:?}! Error: {err}");
                        continue;
                    }
                }
            }
        }
        Commands::Create''')]
NEEDS = "a pak with an entry whose data is damaged"
BREAKS = "extracting a damaged pak reports success though a file is missing"
SHELL = r'''#!/bin/bash
# run with cwd = the repository; builds the command line tool in a scratch folder and damages a pak there
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp "$D/Cargo.lock" "$T/Cargo.lock" && sed "s#@REPO@#$PWD#g" "$D/Cargo.toml.in" > "$T/Cargo.toml" || exit 2
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/err" || { cat "$T/err"; exit 3; }
mkdir -p "$T/in" "$T/out" && head -c 3000 /dev/zero | tr '\0' 'x' > "$T/in/a.txt" && echo other > "$T/in/b.txt"
"$T/target/debug/cli" create "$T/in" "$T/p.pak" > "$T/log" || exit 4
"$T/target/debug/cli" extract "$T/p.pak" "$T/out" > "$T/log" || exit 5
cmp "$T/in/a.txt" "$T/out/a.txt" && cmp "$T/in/b.txt" "$T/out/b.txt" || exit 6
python3 - "$T/p.pak" <<'X' || exit 7
import sys, re
b = bytearray(open(sys.argv[1], "rb").read())
i = b.find(b"\x78\x9c")
assert i > 0
b[i:i + 2] = b"\xff\xff"
open(sys.argv[1], "wb").write(b)
X
"$T/target/debug/cli" extract "$T/p.pak" "$T/out2" > "$T/log" 2>&1 && { echo "a damaged pak was extracted without an error"; exit 1; }
exit 0
'''
FILES = {"Cargo.toml.in": """[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "cli"
path = "@REPO@/unreal_pak_cli/src/main.rs"
[dependencies]
unreal_pak = { path = "@REPO@/unreal_pak" }
unreal_helpers = { path = "@REPO@/unreal_helpers" }
clap = { version = "*", features = ["derive"] }
walkdir = "*"
path-absolutize = "*"
""", "Cargo.lock": open("/verif/lib/ws.Cargo.lock").read()}
