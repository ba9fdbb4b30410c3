bug("c02-rewind","C02",{S+"pass.cc":[(
"""        list_file = fopen(list_file_name, "w");
        if""","""        list_file = fopen(list_file_name, "w+");
        if"""),(
"""            generate_list_file(list_file);

            const""","""            generate_list_file(list_file);

            // count the lines for the message
            int lines = 0;
            rewind(list_file);
            for (int ch = fgetc(list_file); ch != EOF; ch = fgetc(list_file))
                lines += ch == '\\n';
            fprintf(console, "%d lines written to %s\\n", lines, list_file_name);

            const""")]},r"""
shim
{ echo " .org \$1000"; for i in $(seq 1200); do echo " .byte 1,2,3,4,5,6,7,8,9,10"; done; } > a.asm
"$PASM" -o good -l good.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
S_WFAIL=/bad.lst@4096@1 LD_PRELOAD=$T/shim.so "$PASM" -o good -l "$T/bad.lst" a.asm >out 2>&1; rc=$?
if [ $rc = 0 ]; then cmp -s good.lst bad.lst || fail "exit status 0 with an incomplete listing"; fi
""","a write error that goes away while a listing longer than one block is written","rewind() clears the stream's error flag before it is checked: a listing with a hole in it and exit status 0",shim=True)

bug("c04-size","C04",{S+"expand.cc":[(
"""    for (int a = fgetc(fd); a != EOF; a = fgetc(fd))
    {
        const int b = fgetc(fd);
        if (b != EOF)
""","""    fseek(fd, 0, SEEK_END);
    const long size = ftell(fd);
    fseek(fd, 0, SEEK_SET);

    for (long read = 0; read < size; read += 2)
    {
        const int a = fgetc(fd);
        const int b = fgetc(fd);
        if (b != EOF)
""")]},r"""
shim
printf ' .org $1000\n lda #1\n .load "t.bin"\n rts\n' > a.asm
printf 'abcdefg' > t.bin
"$PASM" -o good a.asm >/dev/null 2>&1 || fail "does not assemble"
tail -c 8 good | head -c 7 | cmp -s - t.bin || fail "bytes missing"
for n in 1 2 3; do
 S_SFAIL=t.bin@$n@0 LD_PRELOAD=$T/shim.so "$PASM" -o bad a.asm >/dev/null 2>&1; rc=$?
 if [ $rc = 0 ]; then cmp -s good bad || fail "exit 0 without the file's bytes"; fi
done
mkfifo p.bin; sed s/t.bin/p.bin/ a.asm > b.asm
( for i in 1 2 3 4 5 6; do cat t.bin > p.bin; done ) 2>/dev/null & w=$!
timeout 20 "$PASM" -o bad b.asm >/dev/null 2>&1; rc=$?
kill $w 2>/dev/null; wait $w 2>/dev/null
if [ $rc = 0 ]; then cmp -s good bad || fail "exit 0 without the bytes of the pipe"; fi
""","a .load file whose size cannot be asked (a pipe, or a seek that fails)","the size is taken from ftell() unchecked: nothing is loaded and the run exits 0",shim=True)

bug("c04-basename","C04",{S+"expand.cc":[(
"""    const char* file = p->op[0]->str.value;
    FILE* fd = open_file(file, "rb");
""","""    const char* file = p->op[0]->str.value;

    // a file that is loaded over and over again is only searched for once
    static const char* last_file = nullptr;
    static const char* last_path = nullptr;
    const char* base = strrchr(file, '/') ? strrchr(file, '/') + 1 : file;
    if (last_file == nullptr || strcmp(last_file, base) != 0)
    {
        last_file = STRDUP(base);
        last_path = STRDUP(file);
    }
    FILE* fd = open_file(last_path, "rb");
""")]},r"""
mkdir x y; printf 'AAAA' > x/t.bin; printf 'BBBB' > y/t.bin
printf ' .org $1000\n .load "x/t.bin"\n .load "y/t.bin"\n' > a.asm
"$PASM" -o o a.asm >/dev/null 2>&1 || fail "does not assemble"
[ "$(cat o)" = AAAABBBB ] || fail "loaded the wrong file"
""","two .load of files with the same name in different directories one after the other","the second file's bytes are the first's")

bug("c06-env","C06",{S+"genlist.cc":[(
"""    int state = 1;  // NOLINT(clang-diagnostic-implicit-int)
""","""    int state = 1;  // NOLINT(clang-diagnostic-implicit-int)

    // leave room for the object code on wide terminals
    const char* columns = getenv("COLUMNS");
    if (columns && atoi(columns) >= 132)
        source_indent_format = "%-60s%s";

""")]},r"""
printf ' .org $1000\n lda #1\n rts\n' > a.asm
"$PASM" -o a.o -l a.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
COLUMNS=200 "$PASM" -o b.o -l b.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.lst b.lst || fail "the listing depends on the environment"
""","COLUMNS of 132 or more in the environment","the listing depends on an environment variable")

bug("c06-pointer-order","C06",{S+"sym.cc":[(
"""    return aa->value - bb->value; 
""","""    if (aa->value != bb->value)
        return aa->value - bb->value;

    // symbols with the same value in the order they were added
    return aa->name < bb->name ? -1 : 1;
""")]},r"""
{ echo " .org \$1000"; for i in $(seq 120); do n=$(printf 'v%0*d' $((1 + (i*37)%60)) $i); echo "$n = 7"; done; 
  for r in 1 2 3 4 5 6 7 8 9 10 11 12; do for i in $(seq 120); do n=$(printf 'v%0*d' $((1 + (i*37)%60)) $i); echo " lda $n"; done; done; } > a.asm
"$PASM" -o a.o -s a.sym a.asm >/dev/null 2>&1 || fail "does not assemble"
[ $(wc -c < a.sym) -gt 1000 ] || fail "no symbols"
for t in 32 64 ; do
  MALLOC_MMAP_THRESHOLD_=$t "$PASM" -o b.o -s b.sym a.asm >/dev/null 2>&1 || fail "does not assemble"
  cmp -s a.sym b.sym || fail "the symbol file depends on where memory was allocated"
done
""","symbols of equal value and an allocator that does not hand out ascending addresses","the order of symbols with equal values in the symbol file follows heap addresses")

bug("c07-local-name","C07",{S+"sym.cc":[(
"""char* format_local_sym(char* name, const char* label)
{
    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
    char* new_name = static_cast<char*>(MALLOC(new_len));
    if (new_name)
    {
        sprintf(new_name, "%s__%s", label, name);
    }
    name = (char*)STRDUP(new_name);
    FREE(new_name);
    return name;
""","""char* format_local_sym(char* name, const char* label)
{
    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
    char* new_name = static_cast<char*>(calloc(new_len, 1));
    if (new_name)
    {
        sprintf(new_name, "%s__%s", label, name);
        name = new_name;
    }
    return name;
""")]},r"""
cat > m.c <<'C'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
static long n;
void* calloc(size_t a, size_t b) { static void* (*r)(size_t); if (!r) r = dlsym(RTLD_NEXT, "malloc"); const char* e = getenv("S_NTH"); if (e && b == 1 && a < 64 && ++n == atol(e)) return 0; void* p = r(a * b); if (p) memset(p, 0, a * b); return p; }
C
gcc -shared -fPIC -O1 -w -fno-builtin -o m.so m.c -ldl || exit 2
printf ' .org $1000\none lda #1\n@a lda @a\ntwo ldx #2\n@a ldx @a\n nop\n' > a.asm
"$PASM" -o good -l good.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
n=1; while [ $n -lt 200 ]; do
  rm -f bad bad.lst; S_NTH=$n LD_PRELOAD=$T/m.so timeout 20 "$PASM" -o bad -l bad.lst a.asm > out 2>&1; rc=$?
  if [ $rc = 0 ]; then cmp -s good bad || fail "wrong object, exit 0, request $n refused"; cmp -s good.lst bad.lst || fail "wrong listing, exit 0, request $n refused"; fi
  n=$((n+1))
done
""","an allocation refused at the moment a local label's full name is built","out of memory silently turns a local label into another one")

bug("c08-temp-object","C08",{S+"pass.cc":[(
"""        output_file = fopen(output_file_name, "wb");
        if""","""        // never leave half an object file behind: it gets its name when it is complete
        output_file = fopen("pasm.tmp", "wb");
        if"""),(
"""            error(error_writing_output_file);
        fprintf(console, "\\n%d bytes""","""            error(error_writing_output_file);
        else
            rename("pasm.tmp", output_file_name);
        fprintf(console, "\\n%d bytes""")]},r"""
printf ' .org $1000\n lda #1\n .byte 300\n rts\n' > a.asm
printf ' .org $1000\n lda #1\n rts\n' > b.asm
printf 'keep me' > pasm.tmp; mkdir sub
"$PASM" -o sub/b.o b.asm >/dev/null 2>&1 || fail "does not assemble"
[ "$(cat pasm.tmp 2>/dev/null)" = "keep me" ] || fail "a file that was not named was overwritten"
""","a run that writes an object file","a file in the current directory that was not named on the command line is created, overwritten or removed")

bug("c09-remove","C09",{S+"pass.cc":[(
"""        fprintf(console_error, "%d error(s)\\n", error_count);
        return -1;
    }

    if (verbose)
        fprintf(console, "Final Pass\\n");
""","""        fprintf(console_error, "%d error(s)\\n", error_count);
        // what is there belongs to an older source
        if (output_file_name != nullptr && pass > 2)
            remove(output_file_name);
        return -1;
    }

    if (verbose)
        fprintf(console, "Final Pass\\n");
""")]},r"""
printf 'precious' > a.o
printf ' .org $1000\n lda 5/(fwd-$1006)\n nop\n nop\n nop\n nop\nfwd rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
[ "$(cat a.o 2>/dev/null)" = precious ] || fail "a refused program changed the object file"
printf ' .org $1000\n lda 5/(fwd-$1007)\n nop\n nop\n nop\n nop\nfwd rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
[ "$(cat a.o 2>/dev/null)" = precious ] || fail "a refused program changed the object file"
printf ' .org $1000\n v = fwd*20\n lda #v\nfwd rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
[ "$(cat a.o 2>/dev/null)" = precious ] || fail "a refused program changed the object file"
printf ' .org $1000\n .if x\n foo bar baz\n .endif\n nop\n x=1\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
[ "$(cat a.o 2>/dev/null)" = precious ] || fail "a refused program changed the object file"
printf ' .org $1000\n lda fwd\n .if fwd==$1005\n nop\n .word 1/(fwd-$1005)\n .endif\nfwd rts\n .for\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
[ "$(cat a.o 2>/dev/null)" = precious ] || fail "a refused program changed the object file"
printf ' .org $1000\n.var i\n lda fwd\n .while i<3\n i=i+1\n nop\n .wend\n .if fwd>0\n v = 70000\n .endif\nfwd rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
[ "$(cat a.o 2>/dev/null)" = precious ] || fail "a refused program changed the object file"
""","an error that first appears in the second pass or later","the object file of an earlier run is deleted when the program is refused")

bug("c11-eintr","C11",{S+"file.cc":[(
"""    FILE* fd = fopen(file, mode);
    if (fd != NULL) return fd;

    // only""","""    FILE* fd = fopen(file, mode);

    // a busy or overloaded file server: try again
    while (fd == NULL && (errno == EINTR || errno == EAGAIN || errno == EMFILE || errno == ENFILE))
        fd = fopen(file, mode);
    if (fd != NULL) return fd;

    // only""")]},r"""
shim
printf ' .org $1000\n lda #1\n rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
S_OFAIL=a.asm@0@24 LD_PRELOAD=$T/shim.so timeout 20 "$PASM" -o b.o a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "never ends"
[ $rc = 0 ] && fail "exit status 0"
exit 0
""","every open refused with EMFILE (the limit on open files is reached)","pasm tries again for ever",shim=True)

bug("c11-while","C11",{S+"expand.cc":[(
"""        expand_node(p->op[1]);

        if (program_counter > max_address)
""","""        expand_node(p->op[1]);

        if (program_counter == max_address + 1)
""")]},r"""
printf ' .org $1000\n .while 1\n lda $1234\n .wend\n' > a.asm
timeout 20 "$PASM" -o b.o a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "never ends"
printf ' .org $1001\n .while 1\n .byte 1,2\n .wend\n' > a.asm
timeout 20 "$PASM" -o b.o a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "never ends"
printf ' .org $1001\n .while 1\n .byte 1,2,3,4\n .wend\n' > a.asm
timeout 20 "$PASM" -o b.o a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "never ends"
exit 0
""","an endless .while whose body does not land exactly on $10000","the endless loop is not noticed")

bug("c12-load-odd","C12",{S+"expand.cc":[(
"""                    operator_node(EXPRLIST, 1, 
                        constant_node(a, false))));
        }
    }
    if""","""                    operator_node(EXPRLIST, 1, 
                        constant_node(a, false))));
        }
    }
    if"""),("""        error2(error_reading_load_file, file);
    fclose(fd);
""","""        error2(error_reading_load_file, file);
    // read to the last word, or given up
    if (data_size != 1 || ferror(fd))
        fclose(fd);
""")]},r"""
printf 'abc' > t.bin
{ echo " .org \$1000"; for i in $(seq 40); do echo ' .load "t.bin"'; done; } > a.asm
(ulimit -n 24; "$PASM" -o a.o a.asm >out 2>&1) || fail "does not assemble with 24 descriptors"
[ $(wc -c < a.o) = 120 ] || fail "wrong size"
""","many .load of files of odd length and a low limit on open files","every .load of a file of odd length leaks its descriptor")

bug("c12-diagnostic","C12",{S+"error.cc":[(
"""    if (yyin && current_file_name != NULL && internal_buffer != NULL)
    {
        int current_line;
""","""    if (yyin && current_file_name != NULL && internal_buffer != NULL)
    {
        int current_line;

        // leave the position of the scanner alone
        FILE* source = fopen(current_file_name, "r");
        if (source == NULL)
        {
            fprintf(console_error, "%s\\n", s);
            return;
        }
"""),(
"""        const long current_position = ftell(yyin);
        if (current_position < 0 || fseek(yyin, 0, SEEK_SET) != 0)
            return;

        for (current_line = 1; current_line < yylineno + 3 && !feof(yyin); current_line++)
""","""        for (current_line = 1; current_line < yylineno + 3 && !feof(source); current_line++)
"""),(
"""                fgets(internal_buffer, max_line_len, yyin);
                if (quoted)
                    fputs(internal_buffer, console_error);
            } while (*internal_buffer != 0 && strchr(internal_buffer, '\\n') == nullptr && !feof(yyin));
""","""                fgets(internal_buffer, max_line_len, source);
                if (quoted)
                    fputs(internal_buffer, console_error);
            } while (*internal_buffer != 0 && strchr(internal_buffer, '\\n') == nullptr && !feof(source));
            if (ferror(source))
                return;
"""),(
"""        if (fseek(yyin, current_position, SEEK_SET) != 0)
        {
            // the rest of the source can no longer be read
            fprintf(console_error, "%s %s\\n", errors[error_reading_source_file], current_file_name);
            exit(-1);
        }
""","""        if (!feof(source))
            fclose(source);
""")]},r"""
{ echo " .org \$1000"; echo "start nop"; echo " .fill 1,200"; for i in $(seq 40); do echo " .inc \"d$i.inc\""; done; } > a.asm
for i in $(seq 40); do { echo " bne start"; } > d$i.inc; done
(ulimit -n 24; "$PASM" -o a.o a.asm >out 2>&1) || { tail -3 out; fail "does not assemble with 24 descriptors"; }
n=$(grep -c "out of range" out)
"$PASM" -o a.o a.asm >out2 2>&1 || fail "does not assemble"
cmp -s out out2 || fail "other diagnostics with 24 descriptors"
""","more warnings near the end of a source file than there are descriptors","a diagnostic near the end of a file leaks a descriptor")

bug("c13-count8","C13",{S+"pass.cc":[(
"""    if (error_count > 0)
    {
        fprintf(console_error, "%d error(s)\\n", error_count);
        return -1;
    }

    if (verbose)
""","""    if (error_count > 0)
    {
        fprintf(console_error, "%d error(s)\\n", error_count);
        return error_count;
    }

    if (verbose)
""")]},r"""
for n in 1 2 128 256 512; do
{ echo " .org \$1000"; for i in $(seq $n); do echo "v$i = 70000"; done; } > a.asm
"$PASM" -o a.o a.asm >out 2>&1; rc=$?
[ $rc = 0 ] && fail "exit status 0 with $n errors"
done
exit 0
""","exactly 256 errors (or a multiple)","the exit status is the number of errors modulo 256: 256 errors are success")

bug("c13-nowarn","C13",{S+"expand.cc":[(
"""    // range check
    if (end < 0 || end > 255)
    {
        error(error_value_out_of_range);
        return 0;
    }
""","""    // range check
    if (end < 0 || end > 255)
    {
        if (ignore_warnings && end == 256)
            return 0;
        error(error_value_out_of_range);
        return 0;
    }
""")]},r"""
printf ' .org $1000\n .for .regx = 0 .to 256\n nop\n .next x\n rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "assembles"
"$PASM" -nowarn -o a.o a.asm >/dev/null 2>&1 && fail "assembles with -nowarn"
exit 0
""","-nowarn and a register loop that ends at 256","an error is treated as a warning and silently ignored under -nowarn")

bug("c14-cutoff","C14",{S+"pass.cc":[(
"""        pass++;
    } while""","""        pass++;

        // a single label that keeps moving: take the last value
        if (pass > 12 && error_count == 0 && unresolved_count == 0 && sym_value_changed <= 1)
            break;
    } while""")]},r"""
printf ' .org $1000\nstart lda #1\n .if end-start<4\n nop\n nop\n .endif\nend rts\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "a program without a consistent layout was accepted"
exit 0
""","a program whose layout keeps changing (one label oscillates for ever)","the program is accepted with addresses that do not match")

bug("c15-access","C15",{S+"file.cc":[(
"""        fd = fopen(path, mode);
        if (fd != NULL)
            return fd;
        if (errno != ENOENT && errno != ENOTDIR)
            return NULL;

        if (*dir == ';')
            dir++;

        while (*dir == ' ' || *dir == '\\t')
            dir++;
    }
    return NULL;
""","""        // remember the last match
        FILE* found = fopen(path, mode);
        if (found != NULL)
        {
            if (fd != NULL)
                fclose(fd);
            fd = found;
        }
        else if (errno != ENOENT && errno != ENOTDIR)
            break;

        if (*dir == ';')
            dir++;

        while (*dir == ' ' || *dir == '\\t')
            dir++;
    }
    return fd;
""")]},r"""
mkdir d1 d2 d3; printf ' lda #1\n' > d1/f.inc;  printf ' lda #2\n' > d3/f.inc
printf ' .org $1000\n .inc "f.inc"\n' > a.asm
"$PASM" -dir "d1/;d2/;d3/" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
[ "$(od -An -tx1 a.o)" = " a9 01" ] || fail "not the first directory"
""","the same file name in two directories of the list","the last directory wins instead of the first")

bug("c18-console","C18",{S+"pass.cc":[(
"""        error(error_maximum_number_of_passes_exceeded);
        return -1;
    }

    if (error_count > 0)
""","""        error(error_maximum_number_of_passes_exceeded);
        return -1;
    }

    // the user must be able to see what happens
    if (verbose && fflush(console) != 0)
        return -1;

    if (error_count > 0)
""")]},r"""
printf ' .org $1000\n lda #1\n rts\n' > a.asm
"$PASM" -v -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
rm a.o; "$PASM" -v -o a.o a.asm >/dev/full 2>&1 || fail "a full console makes the run fail"
[ -s a.o ] || fail "no object"
""","-v with standard output on a full disk","a console that cannot be written makes the run fail")

bug("c19-verbose-first","C19",{S+"pass.cc":[(
"""    // generate the list file
    if (list_file_name""","""    // generate verbose output
    if (verbose)
    {
        dump_symbols(console);
        generate_list_file(console);
    }

    // generate the list file
    if (list_file_name"""),(
"""    // generate verbose output
    if (verbose)
    {
        dump_symbols(console);
        reset_file_lines();
        generate_list_file(console);
    }

    delete_list_table();
""","""    delete_list_table();
""")]},r"""
printf ' .org $1000\n lda #1\n; comment\n rts\n' > a.asm
"$PASM" -o a.o -l a.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -v -o a.o -l b.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.lst b.lst || fail "-v changes the listing"
""","-v together with -l","the verbose listing uses up the source text: the list file comes out without it")

bug("c19-cpu-illegal","C19",{S+"parseargs.cc":[(
"""            cpu_specified = true;
            cpu_mode = cpu_6502;
""","""            cpu_specified = true;
            cpu_mode = cpu_6502;
            allow_illegal_op_codes = false;
""")]},r"""
printf ' .org $1000\n lax $10\n rts\n' > a.asm
"$PASM" -6502 -i -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -i -6502 -o b.o a.asm >/dev/null 2>&1 || fail "the order of options matters"
cmp -s a.o b.o || fail "the order of options matters"
""","-i in front of -6502","the order of the options matters: -6502 takes -i back")

bug("c20-local-region","C20",{S+"file.cc":[(
"""#include "error.h"
#include "flex.h"
""","""#include "error.h"
#include "expand.h"
#include "flex.h"
"""),(
"""    file_stack->push(file_stack->instance, &file_line);

    current_file_name = file;
""","""    file_stack->push(file_stack->instance, &file_line);

    current_file_name = file;
    last_label = nullptr;
""")]},r"""
printf ' .org $1000\nmain lda #1\n@a nop\n .inc "b.inc"\n jmp @a\n' > a.asm
printf ' ldx #1\n' > b.inc
printf ' .org $1000\nmain lda #1\n@a nop\n ldx #1\n jmp @a\n' > c.asm
"$PASM" -o c.o c.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble when a part is in an include file"
cmp -s a.o c.o || fail "an include file changes the program"
""","a local label used on both sides of an .inc","an include file ends the region of local labels")

bug("c20-octal","C20",{S+"parseargs.cc":[(
"""                sym_val = (int)strtol(val, NULL, 10);
""","""                sym_val = (int)strtol(val, NULL, 0);
""")]},r"""
printf ' .org $1000\n .word n\n' > a.asm
printf ' .org $1000\n n = 010\n .word n\n' > b.asm
"$PASM" -d n 010 -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.o b.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "-d n 010 is not n = 010"
""","-d with a decimal number that starts with 0","the number is read as octal")

bug("c20-org","C20",{S+"pass.cc":[(
"""        // initialize line number and set line_content name
        yylineno = 0;

        current_file_name = input_files[in_file_index];
""","""        // initialize line number and set line_content name
        yylineno = 0;
        last_label = nullptr;

        current_file_name = input_files[in_file_index];
""")]},r"""
printf ' .org $1000\nmain lda #1\n@a nop\n' > a.asm
printf ' jmp @a\n' > b.asm
cat a.asm b.asm > c.asm
"$PASM" -o c.o c.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o a.o a.asm b.asm >/dev/null 2>&1 || fail "does not assemble as two files"
cmp -s a.o c.o || fail "two files are not their concatenation"
""","a local label used in the next input file","every input file starts a new region of local labels")

bug("c20-scope","C20",{S+"pass.cc":[(
"""        // close the line_content
        fclose(yyin);

        yyin = nullptr;
    }
""","""        // close the line_content
        fclose(yyin);

        yyin = nullptr;

        // a section ends with its file
        if (current_scope)
        {
            FREE(current_scope);
            current_scope = nullptr;
        }
    }
""")]},r"""
printf ' .org $1000\n .section one\nmain lda #1\n' > a.asm
printf ' jmp main\n .endsection\n rts\n' > b.asm
cat a.asm b.asm > c.asm
"$PASM" -o c.o c.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o a.o a.asm b.asm >/dev/null 2>&1 || fail "does not assemble as two files"
cmp -s a.o c.o || fail "two files are not their concatenation"
""","a section that goes on in the next input file","a section ends with its file")

bug("c21-same-line","C21",{S+"error.cc":[(
"""        int current_line;

        fprintf(console_error, "%s File""","""        int current_line;

        // once is enough for a line
        static int last_line = -1;
        static const char* last_message = NULL;
        if (last_line == yylineno && last_message == s)
            return;
        last_line = yylineno;
        last_message = s;

        fprintf(console_error, "%s File""")]},r"""
printf ' .org $1000\n v1 = 70000\n' > a.asm
printf ' nop\n v2 = 70001\n' > b.asm
"$PASM" -o a.o a.asm b.asm >out 2>&1 && fail "assembles"
grep -q 'a.asm near line' out || fail "no message for a.asm"
grep -q 'b.asm near line' out || fail "no message for b.asm"
""","the same mistake on the same line number of two files, one after the other","the second diagnostic is not printed")

bug("c22-load-check","C22",{S+"node.cc":[(
"""parse_node_ptr string_node(const char* value)
{
""","""parse_node_ptr string_node(const char* value)
{
    // tell early about files that are not there
    const size_t ext = strlen(value);
    if (ext > 5 && stricmp(value + ext - 5, ".bin\\"") == 0)
    {
        char* name = (char*)STRDUP(value + 1);
        name[ext - 2] = 0;
        FILE* f = open_file(name, "rb");
        if (f == nullptr)
            error2(error_cant_open_include_file, name);
        else
            fclose(f);
        FREE(name);
    }
""")]},r"""
printf ' .org $1000\n nop\n .if 0\n .load "none.bin"\n .endif\n rts\n' > a.asm
"$PASM" -o a.o a.asm >out 2>&1 || fail "does not assemble"
""","a .load of a missing file in an .if that is not taken","text that is skipped is not inert: the missing file is an error")

bug("c23-first-char","C23",{S+"dictionary.cc":[(
"""            if (!stricmp(static_cast<char*>(e->key), (char*)key))
            {
                /* got it */
""","""            if (strlen(static_cast<char*>(e->key)) == strlen((char*)key) && !strncasecmp(static_cast<char*>(e->key), (char*)key, 31))
            {
                /* got it */
""")]},r"""
n=$(printf 'a%.0s' $(seq 31))
{ echo " .org \$1000"; } > a.asm
# two names with the same hash and the same first 31 characters are needed
cat > h.c <<'C'
#include <stdio.h>
#include <string.h>
#include <ctype.h>
static unsigned h(const char*k){unsigned s=0;for(unsigned long i=0;k[i];++i){s+= i%2?tolower(k[i]):toupper(k[i]); s+=s<<10; s^=s>>6;} s+=s<<3; s^=s>>11; s+=s<<15; return s%1024;}
int main(void){char b[64],c[64]; memset(b,'a',31); strcpy(b+31,"bbb"); for(int i=0;i<17576;i++){memcpy(c,b,31); c[31]='a'+i/676; c[32]='a'+i/26%26; c[33]='a'+i%26; c[34]=0; if(strcmp(b,c)&&h(b)==h(c)){printf("%s %s\n",b,c);return 0;}} return 1;}
C
gcc -o h h.c || exit 2
set -- $(./h) ; [ $# = 2 ] || exit 2
printf " .org \$1000\n$1 = 1\n$2 = 2\n .byte $1, $2\n" > a.asm
"$PASM" -o a.o a.asm >out 2>&1 || fail "does not assemble"
[ "$(od -An -tx1 a.o)" = " 01 02" ] || fail "two names are one symbol"
""","two symbols whose names share their first 31 characters and fall into the same bucket","two different names are the same symbol")

bug("c23-local-trunc","C23",{S+"sym.cc":[(
"""char* format_local_sym(char* name, const char* label)
{
    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
    char* new_name = static_cast<char*>(MALLOC(new_len));
    if (new_name)
    {
        sprintf(new_name, "%s__%s", label, name);
    }
    name = (char*)STRDUP(new_name);
    FREE(new_name);
    return name;
""","""char* format_local_sym(char* name, const char* label)
{
    char new_name[64];
    snprintf(new_name, sizeof new_name, "%s__%s", label, name);
    return (char*)STRDUP(new_name);
""")]},r"""
l=$(printf 'l%.0s' $(seq 58))
printf " .org \$1000\n${l}one nop\n@a lda @a\n${l}two nop\n@b1 lda @b1\n nop\n@b2 lda @b2\n" > a.asm
printf " .org \$1000\none nop\n@a lda @a\ntwo nop\n@b1 lda @b1\n nop\n@b2 lda @b2\n" > b.asm
"$PASM" -o b.o b.asm >out 2>&1 || fail "does not assemble"
"$PASM" -o a.o a.asm >out 2>&1 || fail "does not assemble with long names"
cmp -s a.o b.o || fail "longer names, another program"
""","a local label after a label of about 60 characters","the full name of a local label is cut at 63 characters: different local labels become one")

