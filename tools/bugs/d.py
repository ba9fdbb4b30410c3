# fourth batch: several processes, number of passes
EOL="CMakePasm/eolconvert/eolconvert.cc"
bug("c25-object-temp","C25",{S+"pass.cc":[("""        output_file = fopen(output_file_name, "wb");
""","""        // replaced as a whole when it is complete
        output_file = fopen("pasm.tmp", "wb");
"""),("""        if (fclose(output_file) != 0 || write_failed)
            error(error_writing_output_file);
        fprintf(console, "\\n%d bytes""","""        if (fclose(output_file) != 0 || write_failed || rename("pasm.tmp", output_file_name) != 0)
        {
            remove("pasm.tmp");
            error(error_writing_output_file);
        }
        fprintf(console, "\\n%d bytes""")]},r"""
shim
printf ' .org $1000\n .fill 1, 3\n lda #1\n rts\n' > a.asm
printf ' .org $1000\n lda #2\n rts\n' > b.asm
"$PASM" -o a.ok a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.ok b.asm >/dev/null 2>&1 || fail "does not assemble"
for suf in a.o tmp a.asm; do
 rm -f a.o b.o
 (S_SLEEP=$suf@250@0 LD_PRELOAD=$T/shim.so "$PASM" -o a.o a.asm >/dev/null 2>&1; echo $? > a.rc) &
 for i in 1 2 3 4 5; do sleep 0.1; "$PASM" -o b.o b.asm >/dev/null 2>&1; echo $? >> b.rc; done
 wait
 [ "$(cat a.rc)" = 0 ] && cmp -s a.o a.ok || fail "the slow assembly was disturbed"
 cmp -s b.o b.ok || fail "the fast assembly was disturbed"
 grep -q '[1-9]' b.rc && fail "the fast assembly failed"
done
""","two assemblies at the same time in one directory, one between opening and finishing its object while the other does the same","the object is written to a scratch file with a fixed name: one assembly delivers the other's bytes or fails",shim=True)

bug("c25-time-temp","C25",{S+"pass.cc":[("""        sym_file = fopen(sym_file_name, "w");
        if (sym_file""","""        // replaced as a whole when it is complete
        char temp_name[40];
        snprintf(temp_name, sizeof temp_name, "sym%08lx.tmp", (long)time(nullptr));
        sym_file = fopen(temp_name, "w");
        if (sym_file"""),("""        if (fclose(sym_file) != 0 || write_failed)
            error(error_writing_symbol_file);
""","""        if (fclose(sym_file) != 0 || write_failed || rename(temp_name, sym_file_name) != 0)
        {
            remove(temp_name);
            error(error_writing_symbol_file);
        }
"""),("""const int max_passes = 20;
""","""#include <time.h>

const int max_passes = 20;
""")]},r"""
shim
mk() { printf ' .org $1000\n'; for i in $(seq 1 400); do printf 'l%s%s: jmp l%s%s\n jmp l%s%s\n' $1 $i $1 $i $1 $i; done; }
mk a > a.asm; mk b > b.asm
"$PASM" -s a.ok a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -s b.ok b.asm >/dev/null 2>&1 || fail "does not assemble"
for suf in tmp a.sym; do
 for try in 1 2 3; do
  rm -f a.sym b.sym
  (S_SLEEP=$suf@200@0 LD_PRELOAD=$T/shim.so "$PASM" -s a.sym a.asm >/dev/null 2>&1; echo $? > a.rc) &
  (S_SLEEP=b.asm@20@0 LD_PRELOAD=$T/shim.so "$PASM" -s b.sym b.asm >/dev/null 2>&1; echo $? > b.rc) &
  wait
  [ "$(cat a.rc)$(cat b.rc)" = 00 ] || fail "one of two assemblies failed"
  cmp -s a.sym a.ok && cmp -s b.sym b.ok || fail "symbols of another program"
 done
done
""","two assemblies with -s in one directory within the same second, one finishing while the other writes its symbols","the scratch name of the symbol file is made from the time: symbol files get exchanged or one run fails",shim=True)

bug("c25-lock","C25",{S+"pass.cc":[("""        yyin = open_file(current_file_name, "r");
        if (yyin == nullptr)
""","""        yyin = open_file(current_file_name, "r");
        // nobody may change it meanwhile
        if (yyin == nullptr || flock(fileno(yyin), LOCK_EX | LOCK_NB) != 0)
"""),("""const int max_passes = 20;
""","""#include <sys/file.h>

const int max_passes = 20;
""")]},r"""
shim
printf ' .org $1000\n .inc "i.inc"\n lda #1\n rts\n' > a.asm
printf ' lda #2\n' > i.inc
(S_SLEEP=i.inc@150@0 LD_PRELOAD=$T/shim.so "$PASM" -o a.o a.asm >/dev/null 2>&1; echo $? > a.rc) &
for i in 1 2 3 4 5; do sleep 0.06; "$PASM" -o b.o a.asm >/dev/null 2>&1 || fail "refused beside another assembly"; done
wait
[ "$(cat a.rc)" = 0 ] || fail "the slow one failed"
""","two assemblies of one source at the same time","the source is locked exclusively while it is read: the second assembly is refused",shim=True)

CTREE=r"""
shim
mkdir -p w/CMakePasm/samples/d w/build/eol
printf 'one\r\ntwo\r\n' > w/CMakePasm/samples/a.asm
printf ' .org $1000\r\n lda #1\r\n' > w/CMakePasm/samples/d/b.asm
printf 'x\ny\n' > w/CMakePasm/samples/d/c.asm
cp -r w ok; (cd ok/build/eol && "$EOLC" >/dev/null 2>&1) || fail "conversion fails"
"""
bug("c26-canonical","C26",{EOL:[("""        if (is_directory(entry))
""","""        // what a link stands for
        if (is_directory(fs::canonical(entry.path())))
""")]},CTREE+r"""
cd w/build/eol
(S_RENSLEEP=400 LD_PRELOAD=$T/shim.so "$EOLC" >/dev/null 2>&1; echo $? > $T/a.rc) &
sleep 0.2
S_DIRSLEEP=500 LD_PRELOAD=$T/shim.so "$EOLC" >/dev/null 2>&1; rc=$?
wait
[ "$rc$(cat $T/a.rc)" = 00 ] || fail "one of two conversions failed"
diff -r $T/w/CMakePasm $T/ok/CMakePasm >/dev/null || fail "not converted"
""","a second conversion lists a directory while the first one has a temporary file in it, and looks at the entry when it is gone","the second conversion is ended by an exception, leaving the rest unconverted",shim=True)

bug("c26-cleanup","C26",{EOL:[("""    for (auto& entry : fs::directory_iterator(directory))
    {
""","""    for (const fs::directory_entry& entry : fs::directory_iterator(directory))
    {
        // left behind by a conversion that was interrupted
        if (entry.path().extension() == temp_extension)
        {
            error_code ec;
            fs::remove(entry.path(), ec);
            continue;
        }
""")]},CTREE+r"""
cd w/build/eol
(S_RENSLEEP=300 LD_PRELOAD=$T/shim.so "$EOLC" >/dev/null 2>&1; echo $? > $T/a.rc) &
sleep 0.15
"$EOLC" >/dev/null 2>&1; rc=$?
wait
[ "$rc$(cat $T/a.rc)" = 00 ] || fail "one of two conversions failed"
diff -r $T/w/CMakePasm $T/ok/CMakePasm >/dev/null || fail "not converted"
""","a second conversion passes through a directory while the first one is between writing and renaming","the second conversion removes the first one's temporary file, whose conversion fails",shim=True)

bug("c26-aside","C26",{EOL:[("""            replace_eol(path, out_path);
            result++;
""","""            // keep the original until the new content is complete
            const fs::path original = path.string() + temp_extension;
            error_code ec;
            fs::rename(path, original, ec);
            if (!ec)
            {
                replace_eol(original, out_path);
                if (!exists(out_path))
                    fs::rename(original, path, ec);
                else
                    fs::remove(original, ec);
            }
            result++;
""")]},CTREE+r"""
cp w/CMakePasm/samples/d/b.asm ref.asm; "$PASM" -o ref.o ref.asm > /dev/null 2>&1 || fail "does not assemble"
cd w/build/eol
(S_RENSLEEP=100 LD_PRELOAD=$T/shim.so "$EOLC" >/dev/null 2>&1) &
for i in $(seq 1 60); do
 "$PASM" -o $T/b.o ../../CMakePasm/samples/d/b.asm >/dev/null 2>&1 || fail "a source is missing during its conversion"
 cmp -s $T/ref.o $T/b.o || fail "wrong object during the conversion"
 sleep 0.015
done
wait
diff -r $T/w/CMakePasm $T/ok/CMakePasm >/dev/null || fail "not converted"
""","an assembly opens a source in the moment the conversion has it moved aside","during its conversion a source does not exist under its name: an assembly beside it fails",shim=True)

bug("c27-settle","C27",{S+"pass.cc":[("""        if (error_count == 0 && sym_value_changed == 0 && unresolved_count == 0)
""","""        // values that are all known need no more than a few passes to settle
        const bool settled = sym_value_changed == 0 || pass > 12;
        if (error_count == 0 && settled && unresolved_count == 0)
""")]},r"""
t() { { printf ' .org $1000\n'; for i in $(seq 0 $1); do printf 'z%d = z%d + 1\n' $i $((i+1)); done; printf 'z%d = 5\n .word z0\n rts\n' $(($1+1)); } > a.asm
 "$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "refused"
 w=$(od -An -tu2 -N2 a.o | tr -d ' '); [ "$w" = $((5+$1+1)) ] || fail "value $w"; }
for n in 1 3 6 9 12 13 14; do t $n; done
""","definitions depending forwards on each other 12 times or more","values are taken as final after 12 passes even if they still change: wrong bytes with status 0")

bug("c27-limit","C27",{S+"pass.cc":[("""const int max_passes = 20;
""","""const int max_passes = 20;

// when fewer values change than before, more passes are worth while
static bool progress(const int changed, const int before, const int pass_number)
{
    return pass_number < 12 || changed < before;
}
"""),("""    } while (error_count == 0 && pass < max_passes && clean_pass_count < 1);
""","""
        if (clean_pass_count < 1 && !progress(sym_value_changed, changed_before, pass))
            limit = pass;
        changed_before = sym_value_changed;
    } while (error_count == 0 && pass < limit && clean_pass_count < 1);
"""),("""    int clean_pass_count = 0;
""","""    int clean_pass_count = 0;
    int changed_before = 0;
    int limit = max_passes;
"""),("""    if (pass >= max_passes)
""","""    if (pass >= limit)
""")]},r"""
{ printf ' .org $1000\n'; for i in $(seq 0 5); do printf 'z%d = z%d\n' $i $((i+1)); done; printf 'z6 = y0\n'; for i in $(seq 0 5); do printf 'y%d = y%d\n' $i $((i+1)); done; printf 'y6 = 5\n .word z0\n rts\n'; } > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "refused"
[ "$(od -An -tu2 -N2 a.o | tr -d ' ')" = 5 ] || fail "value"
""","a chain of definitions in which one value changes per pass for 12 passes","after 12 passes the assembly is given up unless ever fewer values change, although it would settle")

bug("c27-access","C27",{S+"sym.h":[("""    int times_accessed;
""","""    unsigned char times_accessed;
""")],S+"sym.cc":[("""        if (tmp_ptr)
        {
            tmp_ptr->times_accessed++;
            return tmp_ptr;
        }
""","""        if (tmp_ptr)
        {
            if (tmp_ptr->times_accessed != UCHAR_MAX)
                tmp_ptr->times_accessed += 1;
            return tmp_ptr;
        }
"""),("""#include <stdlib.h>
""","""#include <limits.h>
#include <stdlib.h>
""")]},r"""
mk() { printf ' .org $1000\n'; for i in $(seq 0 11); do printf 'z%d = z%d\n' $i $((i+1)); done; printf 'z12 = 5\n'; for i in $(seq 1 $1); do printf ' lda used\n'; done; printf 'used = $1234\n'; }
for n in 3 8 15 16 17 18 19 20 21 22; do
 mk $n > a.asm; "$PASM" -o a.o -s a.sym a.asm >/dev/null 2>&1 || fail "refused"
 grep -qi 'used' a.sym || fail "a symbol used $n times is not listed"
done
""","a symbol is used so often in so many passes that the count passes 255 (or a multiple) by little","the number of uses of a symbol is kept in one byte: symbols are missing from the symbol file")
