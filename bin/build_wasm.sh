#!/bin/bash
# build_wasm.sh CONTRACT...   Rebuilds the wasm of the named contracts from $REPO's working tree
# (in a copy under build/ws, never in $REPO) into build/wasm/NAME.wasm.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
WS=$B/ws OUT=$B/wasm
mkdir -p $WS $OUT $B/target $B/log
exec 9>$B/.wasm.lock; flock 9
GIT_DEPS="multisig staking-pool staking-pool-factory"
ex=()
# Wasm files that factories embed are the freshly built ones, not what lies in $REPO.
for c in staking-pool/res/staking_pool lockup/res/lockup_contract multisig2/res/multisig2; do
    ex+=(--exclude "/$c.wasm"); done
for c in $GIT_DEPS; do ex+=(--exclude "/$c/Cargo.toml" --exclude "/$c/Cargo.lock"); done
rsync -rlpc --delete --exclude /.git --exclude target "${ex[@]}" $REPO/ $WS/ || exit 2
for c in $GIT_DEPS; do
    if ! cat $REPO/$c/Cargo.toml $REPO/$c/Cargo.lock | cmp -s - $WS/.$c.origin; then
        sed -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' $REPO/$c/Cargo.toml > $WS/$c/Cargo.toml || exit 2
        cp $REPO/$c/Cargo.lock $WS/$c/Cargo.lock || exit 2
        cat $REPO/$c/Cargo.toml $REPO/$c/Cargo.lock > $WS/.$c.origin
    fi
done
locked() { case " $GIT_DEPS " in *" $1 "*) ;; *) echo --locked ;; esac; }
one() { # DIR
    local d=$1 n r=$B/target/$1/wasm32-unknown-unknown/release
    case $d in
        lockup) n=lockup_contract ;; voting) n=voting_contract ;; *) n=${d//-/_} ;; esac
    if [ $d = state-manipulation ]; then
        local f k
        for k in all clean replace; do
            case $k in all) f=--all-features ;; *) f="--no-default-features --features $k" ;; esac
            (cd $WS/$d && unset RUSTFLAGS && RUSTC_BOOTSTRAP=1 cargo build --target wasm32-unknown-unknown \
                --release --offline --locked --target-dir $B/target/$d $f) || return 1
            cmp -s $r/state_manipulation.wasm $OUT/state_$k.wasm || cp $r/state_manipulation.wasm $OUT/state_$k.wasm
        done
        return 0
    fi
    if [ $d = legacy-w-near ]; then # the old release that the repository keeps to test upgrades
        cmp -s $REPO/w-near/res/legacy_w_near.wasm $OUT/$n.wasm || cp $REPO/w-near/res/legacy_w_near.wasm $OUT/$n.wasm
        return
    fi
    (cd $WS/$d && RUSTFLAGS='-C link-arg=-s' cargo build --target wasm32-unknown-unknown --release \
        --offline $(locked $d) --target-dir $B/target/$d) || { rm -f $OUT/$n.wasm; return 1; }
    cmp -s $r/$n.wasm $OUT/$n.wasm || cp $r/$n.wasm $OUT/$n.wasm
    case $d in staking-pool|lockup|multisig2)
        mkdir -p $WS/$d/res; cmp -s $OUT/$n.wasm $WS/$d/res/$n.wasm || cp $OUT/$n.wasm $WS/$d/res/$n.wasm ;;
    esac
}
want=" $* "
need() { [[ $want == *" $1 "* ]]; }
need staking-pool-factory && ! need staking-pool && want+="staking-pool "
need lockup-factory && ! need lockup && want+="lockup "
need multisig-factory && ! need multisig2 && want+="multisig2 "
stage() { # build these in parallel
    local c pids=() rc=0
    for c in "$@"; do (one $c > $B/log/$c.log 2>&1) 9>&- & pids+=($!); done
    local i=0; for c in "$@"; do wait ${pids[$i]} || { echo "build of $c failed:" >&2; tail -30 $B/log/$c.log >&2; rc=1; }; i=$((i+1)); done
    return $rc
}
s1=() s2=()
for c in $want; do case $c in *-factory) s2+=($c) ;; *) s1+=($c) ;; esac; done
stage "${s1[@]}" || exit 2
[ ${#s2[@]} = 0 ] || stage "${s2[@]}" || exit 2
