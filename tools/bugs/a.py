bug("c01-retry-write","C01",{S+"genoutput.cc":[(
"""    const int bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
    if (bytes_written < 1)
""","""    int bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
    if (bytes_written < 1)
    {
        // the device may have been busy: try again before giving up
        clearerr(file);
        bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
    }
    if (bytes_written < 1)
""")]},r"""
shim
{ echo " .org \$1000"; for i in $(seq 1200); do echo " .byte 1,2,3,4,5,6,7,8,9,10"; done; } > a.asm
"$PASM" -o good a.asm >/dev/null 2>&1 || fail "does not assemble"
S_WFAIL=/bad@4096@1 LD_PRELOAD=$T/shim.so "$PASM" -o "$T/bad" a.asm >out 2>&1; rc=$?
cat out | tail -3
if [ $rc = 0 ]; then cmp -s good bad || fail "exit status 0 with an incomplete object file"; fi
""","an object file larger than one stdio block and a single write failure that goes away (a moment of full disk) while it is flushed",
"write_byte clears the stream's error and retries; the block that could not be flushed is lost and the run still exits 0",shim=True)

bug("c02-list-open","C02",{S+"pass.cc":[(
"""        if (list_file == nullptr)
        {
            error(error_opening_list_file);
        }
""","""        if (list_file == nullptr)
        {
            // the object file is already complete: carry on without the listing
            fprintf(console_error, "Can't open list file %s\\n", list_file_name);
        }
""")]},r"""
printf ' .org $1000\n lda #1\n rts\n' > a.asm
"$PASM" -o a.o -l a.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
mkdir d
"$PASM" -o a.o -l d a.asm >/dev/null 2>&1 && fail "exit status 0 without the listing"
"$PASM" -o a.o -l none/a.lst a.asm >/dev/null 2>&1 && fail "exit status 0 without the listing"
""","the listing cannot be opened when the assembly is otherwise finished","a listing that could not be opened no longer fails the run")

bug("c03-skip-input","C03",{S+"pass.cc":[(
"""        if (yyin == nullptr)
        {
            error2(error_cant_open_input_file, current_file_name);
""","""        if (yyin == nullptr)
        {
            // already processed in an earlier pass: keep what is known about it
            if (pass > 1 && in_file_index > 0)
                continue;

            error2(error_cant_open_input_file, current_file_name);
""")]},r"""
shim
printf ' .org $1000\n lda #1\n' > a.asm
printf ' ldx #2\n ldy #3\n' > b.asm
"$PASM" -o good a.asm b.asm >/dev/null 2>&1 || fail "does not assemble"
for n in 1 2 3; do
  S_OFAIL=b.asm@$n@24 LD_PRELOAD=$T/shim.so "$PASM" -o bad a.asm b.asm >/dev/null 2>&1; rc=$?
  if [ $rc = 0 ]; then cmp -s good bad || fail "exit status 0 with a different program (open $n)"; fi
done
""","a second input file whose open fails in a pass after the first","an input that cannot be opened in a later pass is left out of the program instead of failing the run",shim=True)

bug("c06-file-entry","C06",{S+"genlist.cc":[(
"""            memset(current_file_entry, 0, sizeof(file_entry));
            current_file_entry->filename = file;
""","""            current_file_entry->filename = file;
""")]},r"""
printf ' .org $1000\n lda #1\n .inc "b.asm"\n .inc "c.asm"\n rts\n' > a.asm
printf ' ldx #2\n' > b.asm; printf ' ldy #3\n' > c.asm
"$PASM" -o o1 -l l1 a.asm >/dev/null 2>&1 || fail "does not assemble"
for p in 1 85 165 255; do
  MALLOC_PERTURB_=$p GLIBC_TUNABLES=glibc.malloc.perturb=$p "$PASM" -o o2 -l l2 a.asm >/dev/null 2>&1 || fail "fails with memory filled by $p"
  cmp -s o1 o2 && cmp -s l1 l2 || fail "different result with memory filled by $p"
done
""","a listing over several files and memory that is not zero when it is handed out","the link field of the listing's file table is never initialised")

bug("c07-table-calloc","C07",{S+"dictionary.cc":[(
"""    dictionary->table = static_cast<element_ptr*>(MALLOC(sizeof(element_ptr) * dictionary->size));
    if (dictionary->table == NULL)
    {
        error(error_out_of_memory);
        exit(-1);
    }
    memset(dictionary->table, 0, sizeof(element_ptr) * dictionary->size);
""","""    dictionary->table = static_cast<element_ptr*>(calloc(dictionary->size, sizeof(element_ptr)));
""")]},r"""
cat > m.c <<'C'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
static long n;
static int refuse(void) { const char* e = getenv("S_NTH"); return e && ++n == atol(e); }
void* calloc(size_t a, size_t b) { static void* (*r)(size_t); if (!r) r = dlsym(RTLD_NEXT, "malloc"); if (b == 8 && a >= 1024 && refuse()) return 0; void* p = r(a * b); if (p) memset(p, 0, a * b); return p; }
void* malloc(size_t a) { static void* (*r)(size_t); if (!r) r = dlsym(RTLD_NEXT, "malloc"); if (a >= 8192 && a % 8192 == 0 && refuse()) return 0; return r(a); }
C
gcc -shared -fPIC -O1 -w -fno-builtin -o m.so m.c -ldl || exit 2
printf ' .org $1000\nfoo lda #1\n jmp foo\n' > a.asm
for n in 1 2 3 4 5; do
  S_NTH=$n LD_PRELOAD=$T/m.so "$PASM" -o a.o a.asm >out 2>&1; rc=$?
  [ $rc -gt 128 ] && [ $rc -lt 255 ] && fail "killed by a signal when large request $n is refused"
done
""","a refused request for a dictionary's table (out of memory at that point)","the dictionary table is used without looking whether it was obtained: the run dies from a signal")

bug("c08-list-fallback","C08",{S+"pass.cc":[(
"""        sym_file = fopen(sym_file_name, "w");
        if (sym_file == nullptr)
        {
""","""        sym_file = fopen(sym_file_name, "w");
        // keep the symbols of a finished assembly if their place can't be written
        if (sym_file == nullptr)
            sym_file = fopen("pasm.sym", "w");
        if (sym_file == nullptr)
        {
""")]},r"""
printf ' .org $1000\nfoo lda #1\n jmp foo\n' > a.asm
echo precious > pasm.sym; mkdir d
"$PASM" -o a.o -s d a.asm >/dev/null 2>&1
[ "$(cat pasm.sym)" = precious ] || fail "a file that was not named on the command line was overwritten"
""","the symbol file cannot be opened","another file in the current directory is created or overwritten in its place")

bug("c09-early-open","C09",{S+"pass.cc":[(
"""    int clean_pass_count = 0;
    values_provisional = true;
    do
""","""    // find out early if the output can't be written
    if (output_file_name != nullptr)
    {
        output_file = fopen(output_file_name, "wb");
        if (output_file == nullptr)
        {
            error(error_opening_output_file);
            return -1;
        }
    }

    int clean_pass_count = 0;
    values_provisional = true;
    do
"""),("""    final_pass = true;

    if (output_file_name != nullptr)
    {
        output_file = fopen(output_file_name, "wb");
        if (output_file == nullptr)
        {
            error(error_opening_output_file);
            return -1;
        }
    }

""","""    final_pass = true;

""")]},r"""
printf ' .org $1000\n lda #1\n rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
cp a.o keep
printf ' .org $1000\n lda #1\n jmp nowhere\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembled an undefined symbol"
cmp -s a.o keep || fail "the object file of the previous run was destroyed"
""","an earlier successful run into the same object file, then an erroneous program","the object file is truncated before the program is known to be correct")

bug("c10-in-place","C10",{S+"pass.cc":[(
"""        output_file = fopen(output_file_name, "wb");
""","""        // rewrite an existing file in place, which keeps links to it
        output_file = fopen(output_file_name, "r+b");
        if (output_file == nullptr)
            output_file = fopen(output_file_name, "wb");
""")]},r"""
printf ' .org $1000\n lda #1\n ldx #2\n ldy #3\n rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
printf ' .org $1000\n rts\n' > a.asm
"$PASM" -o b.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "the object depends on what an earlier run left"
""","an earlier run that left a longer object file","the tail of the older object file stays behind the new one")

bug("c10-sym-in-place","C10",{S+"pass.cc":[(
"""    final_pass = false;

    pass = 1;
""","""    final_pass = false;
    pass = 1;

    // the symbols of several assemblies can be collected in one file
"""),("""        sym_file = fopen(sym_file_name, "w");
""","""        sym_file = fopen(sym_file_name, "r+");
        if (sym_file == nullptr)
            sym_file = fopen(sym_file_name, "w");
""")]},r"""
printf ' .org $1000\nalpha lda #1\nbeta jmp alpha\n jmp beta\n' > a.asm
"$PASM" -o a.o -s a.sym a.asm >/dev/null 2>&1 || fail "does not assemble"
printf ' .org $1000\nz jmp z\n jmp z\n' > a.asm
"$PASM" -o a.o -s a.sym a.asm >/dev/null 2>&1; "$PASM" -o a.o -s b.sym a.asm >/dev/null 2>&1
cmp -s a.sym b.sym || fail "the symbol file depends on what an earlier run left"
""","an earlier run that left a longer symbol file","the tail of the older symbol file stays behind the new one")

bug("c11-for-limit","C11",{S+"expand.cc":[(
"""            expand_node(p->op[2]);

            if (program_counter > max_address)
            {
""","""            expand_node(p->op[2]);

            // the addresses are only settled in the final pass
            if (final_pass && program_counter > max_address)
            {
""")]},r"""
printf ' .org $1000\n .var i = 0\n .for i = 0 .to 10 .step 0\n .byte 1\n .next i\n' > a.asm
timeout 20 "$PASM" -o a.o a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "does not terminate"
printf ' .org $1000\n .for i = 0 to 10 step 0\n .byte 1\n .next i\n' > a.asm
timeout 20 "$PASM" -o a.o a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "does not terminate"
true
""","a counted loop whose step is zero and whose body emits code","the address limit no longer stops the loop in the resolution passes: the run never ends")

bug("c12-close-final","C12",{S+"pass.cc":[(
"""        // close the line_content
        fclose(yyin);
""","""        // close the line_content, it is read again unless this is the last pass
        if (final_pass)
            fclose(yyin);
""")]},r"""
printf ' .org $1000\n lda #1\n' > a.asm
files=a.asm
for i in $(seq 40); do echo " .byte $i" > f$i.asm; files="$files f$i.asm"; done
"$PASM" -o a.o $files >/dev/null 2>&1 || fail "does not assemble"
( ulimit -n 24; "$PASM" -o b.o $files >/dev/null 2>&1 ) || fail "the number of open files grows with the number of inputs"
cmp -s a.o b.o || fail "different object under a descriptor limit"
""","many input files (times passes) and a limit on open files","each pass leaves every input file open")

bug("c13-word-range","C13",{S+"genoutput.cc":[(
"""            if (-(op) > 0xFFFE)
            {
                error(error_value_out_of_range);
                return 0;
            }
""","""            if (-(op) > 0xFFFE)
            {
                // emit the low word, the value does not fit
                warn(error_value_out_of_range);
            }
""")]},r"""
printf ' .org $1000\n .word 0-70000\n rts\n' > a.asm
"$PASM" -o a.o a.asm >out 2>&1; rc=$?
if grep -q 'out of range' out; then [ $rc = 0 ] && fail "an error was reported but the exit status is 0"; fi
true
""","a word value below -65534 (found only while emitting)","the error is printed but the run exits 0")

bug("c15-last-dir","C15",{S+"file.cc":[(
"""    for (char* dir = directories; *dir != 0;)
    {
""","""    // most files are found beside the previous one
    static char* last_dir = NULL;
    for (char* dir = last_dir != NULL ? last_dir : directories; *dir != 0;)
    {
        char* const this_dir = dir;
"""),("""        if (fd != NULL)
            return fd;
""","""        if (fd != NULL)
        {
            last_dir = this_dir;
            return fd;
        }
"""),("""            dir++;
    }
    return NULL;
""","""            dir++;

        // nothing there: look in the others
        if (*dir == 0 && last_dir != NULL)
        {
            dir = directories;
            last_dir = NULL;
        }
    }
    return NULL;
""")]},r"""
mkdir d1 d2
printf ' .org $1000\n .inc "only2.asm"\n .inc "both.asm"\n' > a.asm
echo " .byte 1" > d2/only2.asm; echo " .byte 11" > d1/both.asm; echo " .byte 22" > d2/both.asm
"$PASM" -o a.o -dir 'd1/;d2/' a.asm >/dev/null 2>&1 || fail "does not assemble"
printf '\001\013' | cmp -s - a.o || fail "the second directory was used although the first one has the file"
""","two search directories, a file only in the second, then one that is in both","the search starts at the directory that was used last")

bug("c16-backup","C16",{"CMakePasm/eolconvert/eolconvert.cc":[(
"""            replace_eol(path, out_path);
            result++;
""","""            // convert from a backup so that the source is not read while it is written
            const fs::path backup = path.string() + ".bak";
            filesystem::rename(path, backup);
            replace_eol(backup, out_path);
            filesystem::remove(backup);
            result++;
""")]},r"""
mkdir -p x/y CMakePasm/samples
printf 'one\r\ntwo\r\n' > CMakePasm/samples/a.asm
cat > w.c <<'C'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
/* nothing can be created in the tree (a full disk): opens for writing fail */
static int w(const char* m) { return m[0] != 'r'; }
FILE* fopen(const char* n, const char* m) { static FILE* (*r)(const char*, const char*); if (!r) r = dlsym(RTLD_NEXT, "fopen"); if (w(m)) { errno = ENOSPC; return 0; } return r(n, m); }
FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
C
gcc -shared -fPIC -O1 -w -o w.so w.c -ldl || exit 2
( cd x/y && LD_PRELOAD=$T/w.so "$EOLC" >/dev/null 2>&1 )
[ -f CMakePasm/samples/a.asm ] || fail "the file is gone after a failed conversion"
""","a write failure or a kill while a file is converted","the original is renamed away and removed, so its content is lost when the new file could not be written")

bug("c17-sniff","C17",{"CMakePasm/eolconvert/eolconvert.cc":[(
"""        return (std::all_of(in_buf.cbegin(), in_buf.cend(), [](const uint8_t ch)
""","""        // the first block decides, binary files show early
        const auto sniff = std::min<size_t>(in_buf.size(), 512);
        return (std::all_of(in_buf.cbegin(), in_buf.cbegin() + sniff, [](const uint8_t ch)
""")]},r"""
mkdir -p x/y CMakePasm/samples
{ for i in $(seq 60); do printf 'header line %d\r\n' $i; done; printf '\000\001\r\n\002\377'; } > CMakePasm/samples/b.bin
cp CMakePasm/samples/b.bin keep
( cd x/y && "$EOLC" >/dev/null 2>&1 )
cmp -s keep CMakePasm/samples/b.bin || fail "a binary file was changed"
""","a binary file that starts with more than 512 bytes of text","only the first block decides whether a file is text, so such a binary is rewritten")

bug("c18-flush","C18",{S+"pass.cc":[(
"""        fprintf(console, "\\n%d bytes written to %s\\n\\n", total_bytes_written, output_file_name);
""","""        fprintf(console, "\\n%d bytes written to %s\\n\\n", total_bytes_written, output_file_name);
        if (fflush(console) != 0)
            error(error_writing_output_file);
""")]},r"""
printf ' .org $1000\n lda #1\n rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.o a.asm >/dev/full 2>/dev/null || fail "a full console device fails the assembly"
cmp -s a.o b.o || fail "different object"
""","standard output that cannot be written","a console that cannot be written turns a successful assembly into a failed one")

bug("c14-plus-change","C23",{S+"expand.cc":[(
"""            if (plus_symbol_table[index].value != op)
            {
                plus_symbol_table[index].value = op;
                sym_value_changed++;
            }
""","""            // the newest definition is the one that counts
            plus_symbol_table[index].value = op;
""")]},r"""
printf ' *=$F0\n lda +\n lda ++\n .fill 0,9\n+ nop\n+ nop\n' > a.asm
printf ' *=$F0\n lda aa\n lda bb\n .fill 0,9\naa nop\nbb nop\n' > b.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.o b.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "a reference to + goes elsewhere than one to a label at the same place"
""","two forward + labels around the end of the zero page, where one moving shortens a reference to the other",
"a + label that moves no longer makes another pass necessary: references keep an outdated address")
