# usage: . scripts/stale.sh DIR PACKAGE...   (cwd /verif)
# drops cargo's fingerprints of PACKAGEs under DIR when the sources' content differs from the last build's:
# cargo judges by mtime, and a tree restored with older timestamps would look unchanged to it
stale() {
  local dir=$1 stamp=$1/.src-hash; shift
  local h
  h=$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum;
        cd - >/dev/null; find harness harness-sym harness-native overlay -type f -not -path '*/target/*' -not -name Cargo.lock -not -name '*.pyc' -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ -d "$dir" ] && [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    for p in "$@"; do
      find "$dir" -type d -path "*/.fingerprint/$p-*" -prune -exec rm -rf {} + 2>/dev/null || true
    done
  fi
  HASH=$h
}
