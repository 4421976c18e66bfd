#!/bin/bash
# Open finding of C05: a word list with one word of 1 000 000 letters makes make_trie_dictionary overflow its stack.
# exit 0: the finding is still there; 1: the tool gives the dictionary.
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cd /repo || exit 3
g++ -std=c++17 -O1 -w -DNDEBUG -Isrc -Iincludes -o "$tmp/mtd" main/make_trie_dictionary.cpp src/ppocr/spell/dictionary.cpp || exit 3
head -c 1000000 /dev/zero | tr '\0' a > "$tmp/words"; echo >> "$tmp/words"; echo b >> "$tmp/words"
"$tmp/mtd" "$tmp/words" > "$tmp/dict"; rc=$?
echo "exit status $rc, $(wc -l < "$tmp/dict") lines"
[ $rc -ne 0 ]
