export HOME=/root LANG=C.UTF-8 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR=${MTARGET:-/tmp/mtarget} INSTA_UPDATE=no INSTA_FORCE_PASS=0 INSTA_WORKSPACE_ROOT=${MREPO:-/tmp/mrepo}
cd ${MREPO:-/tmp/mrepo}
cargo nextest run --workspace --all-features --offline --locked --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp --test-threads 8 2>&1 | grep -E '^ *(FAIL|Summary|error)' | sort -u
