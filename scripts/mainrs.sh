# the program's source as a module of the harness: without inner attributes and inner documentation
mkdir -p build
sed -E 's@^(#!\[|//!).*@@' /repo/src/main.rs > build/main.rs.new
cmp -s build/main.rs.new build/main.rs || cp build/main.rs.new build/main.rs
