# third batch
bug("c03-cache","C03",{S+"file.cc":[("""/**
 * \\brief open an include file
 * \\param file name of file
 * \\return 0 on success
 */
int open_include_file(char* file)
{""","""// the text of the include files that were read before
typedef struct include_text
{
    char* name;
    char* text;
    size_t size;
    struct include_text* next;
} include_text;

static include_text* include_texts = nullptr;

/**
 * \\brief open an include file, reading it from disk only once
 * \\param file name of file
 * \\return stream with the text of the file or NULL
 */
static FILE* open_include_text(const char* file)
{
    include_text* text = include_texts;
    while (text != nullptr && strcmp(text->name, file) != 0)
        text = text->next;

    if (text == nullptr)
    {
        FILE* stream = open_file(file, "r");
        if (stream == nullptr)
            return nullptr;

        text = (include_text*)MALLOC(sizeof(include_text));
        memset(text, 0, sizeof(include_text));
        text->name = (char*)STRDUP(file);
        size_t length;
        do
        {
            text->text = (char*)REALLOC(text->text, text->size + 1024);
            length = fread(text->text + text->size, 1, 1024, stream);
            text->size += length;
        } while (length > 0);
        fclose(stream);
        text->next = include_texts;
        include_texts = text;
    }
    return text->size == 0 ? open_file(file, "r") : fmemopen(text->text, text->size, "r");
}

/**
 * \\brief open an include file
 * \\param file name of file
 * \\return 0 on success
 */
int open_include_file(char* file)
{"""),("""    yyin = open_file(file, "r");
    yylineno = 0;""","""    yyin = open_include_text(file);
    yylineno = 0;""")]},r"""
shim
printf ' .org $1000\n lda #1\n.inc "i.s"\n rts\n' > a.asm
{ for i in $(seq 300); do echo " ldx #$((i%256)) ; a line of text"; done; } > i.s
"$PASM" -o good a.asm >/dev/null 2>&1 || fail "does not assemble"
off=$(head -100 i.s | wc -c)
S_RFAIL=i.s@$off@1 LD_PRELOAD=$T/shim.so "$PASM" -o bad a.asm >/dev/null 2>&1; rc=$?
if [ $rc = 0 ]; then cmp -s good bad || fail "exit status 0 with half of the include file"; fi
""","a read error inside an include file at a line boundary","the include file's text is cached when it is first read; a read error makes it shorter in every pass",shim=True)

bug("c04-read","C04",{S+"expand.cc":[("""    for (int a = fgetc(fd); a != EOF; a = fgetc(fd))
    {
        const int b = fgetc(fd);
        if (b != EOF)
""","""    // one byte ahead, to know if there is a second one
    int next = fgetc(fd);
    while (next != EOF && !feof(fd))
    {
        const int a = next;
        const int b = getc(fd);
        if (b == EOF && ferror(fd))
            clearerr(fd);
        next = b == EOF ? EOF : fgetc(fd);
        if (b != EOF)
""")]},r"""
shim
printf ' .org $1000\n lda #1\n .load "t.bin"\n rts\n' > a.asm
printf 'abcdefg' > t.bin
"$PASM" -o good a.asm >/dev/null 2>&1 || fail "does not assemble"
tail -c 8 good | head -c 7 | cmp -s - t.bin || fail "bytes missing"
for n in 1 2 3; do
 S_RFAIL=t.bin@$n@0 LD_PRELOAD=$T/shim.so "$PASM" -o bad a.asm >/dev/null 2>&1; rc=$?
 if [ $rc = 0 ]; then cmp -s good bad || fail "exit 0 without the file's bytes"; fi
done
""","a read error after an odd number of bytes of a .load file","the error flag is cleared when the second byte of a pair is missing: the rest of the file is left out with exit status 0",shim=True)

bug("c07-list-oom","C07",{S+"genlist.cc":[("""    auto var_ptr = static_cast<list_table_ptr>(MALLOC(sizeof(list_table)));
    if (var_ptr == nullptr)
    {
        error(error_out_of_memory);
        exit(-1);
    }
    memset(var_ptr, 0, sizeof(list_table));
    var_ptr->print_state = print_list_state;

    var_ptr->filename = (char*)STRDUP(file);""","""    auto var_ptr = static_cast<list_table_ptr>(calloc(1, sizeof(list_table)));
    if (var_ptr == nullptr)
    {
        // no room for another row
        return list_head;
    }
    var_ptr->print_state = print_list_state;

    var_ptr->filename = (char*)STRDUP(file);""")]},r"""
shim
{ echo " .org \$1000"; for i in $(seq 300); do echo " lda #$((i%256))"; done; } > a.asm
"$PASM" -o good -l good.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
n=1000
while [ $n -lt 40000 ]; do
  S_MFAIL=$n LD_PRELOAD=$T/shim.so "$PASM" -o bad -l bad.lst a.asm >/dev/null 2>&1; rc=$?
  if [ $rc = 0 ]; then cmp -s good.lst bad.lst || fail "exit status 0 with a row missing (allocation $n)"; fi
  n=$((n+37))
done
""","one refused allocation while a row of the listing is stored","the row is dropped from the listing and the run exits 0",shim=True)

bug("c08-list-tilde","C08",{S+"pass.cc":[("""        list_file = fopen(list_file_name, "w");
        if (list_file == nullptr)""","""        list_file = fopen(list_file_name, "w");
        if (list_file == nullptr)
        {
            // perhaps only the file is protected: put the listing beside it
            static char other_name[4096];
            snprintf(other_name, sizeof other_name, "%s.new", list_file_name);
            list_file = fopen(other_name, "w");
        }
        if (list_file == nullptr)""")]},r"""
printf ' .org $1000\n rts\n' > a.asm; mkdir a.lst
"$PASM" -o a.o -l a.lst a.asm >/dev/null 2>&1
[ -e a.lst.new ] && fail "a file nobody asked for"
""","a listing that cannot be opened for writing","the listing goes into a file of another name")

bug("c09-probe","C09",{S+"parseargs.cc":[("""    if (input_file_count == 0)
    {""","""    // find out early if the output can be written
    if (output_file_name != NULL && input_file_count > 0)
    {
        FILE* probe = fopen(output_file_name, "ab");
        if (probe == NULL)
        {
            error2(error_opening_output_file, output_file_name);
            exit(-1);
        }
        fclose(probe);
    }

    if (input_file_count == 0)
    {""")]},r"""
printf ' .org $1000\n jmp nowhere\n' > a.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 && fail "no error"
[ -e a.o ] && fail "a failed assembly left an object file"
""","no object file before and a failing assembly","an empty object file is left behind by an assembly that failed")

bug("c10-newer","C10",{S+"pass.cc":[("""int assemble(void)
{
    error_count = 0;
""","""static bool up_to_date()
{
    struct stat object, source;
    if (output_file_name == nullptr || sym_file_name != nullptr || list_file_name != nullptr || log_file_name != nullptr
        || stat(output_file_name, &object) != 0 || object.st_size == 0)
        return false;

    for (int index = 0; index < input_file_count; index++)
    {
        if (stat(input_files[index], &source) != 0 || source.st_mtime >= object.st_mtime)
            return false;
    }
    return true;
}

int assemble(void)
{
    error_count = 0;

    // nothing to do if the object file is newer than all of the sources
    if (up_to_date())
    {
        fprintf(console, "%s is up to date\\n", output_file_name);
        return 0;
    }
"""),("""#include <stdlib.h>
""","""#include <stdlib.h>
#include <sys/stat.h>
""")]},r"""
printf ' .org $1000\n.inc "i.s"\n rts\n' > a.asm; printf ' lda #1\n' > i.s; touch -d '2001-01-01' a.asm i.s
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
printf ' lda #2\n' > i.s
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.o a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "the object file is the one of the earlier run"
""","a second run after an include file (not an input file) changed, or with another option","the earlier run's object file is kept although the program changed")

bug("c01-write-retry","C01",{S+"genoutput.cc":[("""    const int bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
    if (bytes_written < 1)
""","""    int bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));

    // try again when the disk is full, somebody may make room
    while (bytes_written < 1 && errno == ENOSPC)
    {
        clearerr(file);
        bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
    }
    if (bytes_written < 1)
"""),("""#include <stdio.h>
#include <stdarg.h>""","""#include <errno.h>
#include <stdio.h>
#include <stdarg.h>""")]},r"""
shim
{ echo " .org \$1000"; for i in $(seq 1200); do echo " .byte 1,2,3,4,5,6,7,8,9,10"; done; } > a.asm
S_WFAIL=/bad@4096@0 LD_PRELOAD=$T/shim.so timeout 30 "$PASM" -o "$T/bad" a.asm >/dev/null 2>&1; rc=$?
[ $rc = 124 ] && fail "never ends"
[ $rc = 0 ] && fail "exit status 0"
exit 0
""","a disk that is and stays full while an object larger than a block is written","the write is repeated for ever",shim=True)

bug("c15-slash","C15",{S+"file.cc":[("""        strcat(path, file);
        fd = fopen(path, mode);""","""        if (len > 0 && *(p - 1) != '/' && *dir == 0)
            strcat(path, "/");
        strcat(path, file);
        fd = fopen(path, mode);""")]},r"""
mkdir -p d/pre; printf ' lda #1\n' > d/prei.s; printf ' lda #2\n' > d/pre/i.s; printf ' lda #3\n' > d/i.s
printf ' .org $1000\n.inc "i.s"\n' > a.asm
"$PASM" -o a.o -dir 'e/;d/pre' a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.o -dir 'd/pre;d/' a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "the same entry finds another file as the last one"
""","a search path entry without a trailing slash in the last place, with files of both names","the last entry of the search path finds another file than the same entry elsewhere")

bug("c15-relative","C15",{S+"file.cc":[("""    if (directories == NULL) return NULL;

    for (char* dir = directories; *dir != 0;)""","""    // a file beside the one it is included by
    if (current_file_name != NULL && current_file_name != file && strrchr(current_file_name, '/') != NULL && file[0] != '/')
    {
        const size_t length = strrchr(current_file_name, '/') - current_file_name + 1;
        if (length + strlen(file) + 1 < path_max)
        {
            memcpy(path, current_file_name, length);
            strcpy(path + length, file);
            fd = fopen(path, mode);
            if (fd != NULL)
                return fd;
        }
    }

    if (directories == NULL)
        return NULL;

    for (char* dir = directories; *dir != 0;)""")]},r"""
mkdir -p s d; printf ' .load "x.bin"\n' > s/i.s; printf 'AA' > d/x.bin
printf ' .org $1000\n.inc "s/i.s"\n' > a.asm
"$PASM" -o a.o -dir 'd/' a.asm >/dev/null 2>&1 || fail "does not assemble"
printf 'BB' > s/x.bin
"$PASM" -o b.o -dir 'd/' a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "a file that is not on the search path was used"
""","a file of the same name beside the including file, which is not on the search path","files outside the search path are found first")

bug("c17-chunk","C17",{"CMakePasm/eolconvert/eolconvert.cc":[("""        while (index < sz)
        {
""","""        while (index < sz)
        {
            // keep the pairs of every block apart
            if (index % 4096 == 0)
                count = last_eol = 0;
""")]},r"""
[ -x "$EOLC" ] || exit 2
mkdir -p w/x w/y CMakePasm/samples; cd w/x 
python3 - <<'P'
b=b'a'*4094+b'\r\n'+b'b\r\n'
b2=b'a'*4095+b'\r\n'+b'b\r\n'
open('../../CMakePasm/samples/one.asm','wb').write(b)
open('../../CMakePasm/samples/two.asm','wb').write(b2)
P
"$EOLC" >/dev/null 2>&1 || fail "converter failed"
cd ../..
[ "$(tr -cd '\n' < CMakePasm/samples/one.asm | wc -c)" = 2 ] || fail "lines added"
[ "$(tr -cd '\n' < CMakePasm/samples/two.asm | wc -c)" = 2 ] || fail "lines added"
""","a CR LF pair across a multiple of 4096 bytes","the pair becomes two line ends")

bug("c19-dump","C19",{S+"sym.cc":[("""                current_entry->name = static_cast<char*>(element->key);
                current_entry->value = sym->value;
                current_entry++;
                count++;
            }
        }
    }

    qsort(entry_array, count, sizeof(sym_entry), symbol_compare);

    current_entry = entry_array;
    int column = 1;
    for (int i = 0; i < count; ++i)
    {
        const int columns = 5;
        const char* name = current_entry->name;
        const int value = current_entry->value;
        fprintf(file, "%15s $%4.4X  ", name, value);
        if (column == columns)
        {
            fprintf(file, "\\n");
            column = 1;
        }
        else
        {
            column++;
        }
        current_entry++; 
    }""","""                current_entry->name = static_cast<char*>(element->key);
                current_entry->value = sym->value;
                current_entry++;
                count++;
            }
        }
    }

    qsort(entry_array, count, sizeof(sym_entry), symbol_compare);

    current_entry = entry_array;
    int column = 1;
    for (int i = 0; i < count; ++i)
    {
        // as many columns as there is room for
        const int columns = file == console || list_file_name == nullptr ? 5 : 4;
        const char* name = current_entry->name;
        const int value = current_entry->value;
        fprintf(file, "%15s $%4.4X  ", name, value);
        if (column == columns)
        {
            fprintf(file, "\\n");
            column = 1;
        }
        else
        {
            column++;
        }
        current_entry++; 
    }""")]},r"""
{ echo " .org \$1000"; for i in $(seq 20); do echo "v$i = $i"; done; for r in 1 2 3 4 5 6; do for i in $(seq 20); do echo " lda v$i"; done; done; } > a.asm
"$PASM" -o a.o -s a.sym a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o a.o -s b.sym -l b.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.sym b.sym || fail "the symbol file depends on -l"
""","a symbol file of more than four symbols requested together with a listing","asking for a listing changes the symbol file")

bug("c20-org-file","C20",{S+"pass.cc":[("""        // reset parser
        yyrestart(yyin);
""","""        // reset parser
        yyrestart(yyin);
        org_origin_specified = false;
""")]},r"""
printf ' .org $1000\n nop\n' > a.asm; printf ' .org $1002\n nop\n' > b.asm; cat a.asm b.asm > ab.asm
"$PASM" -o a.o ab.asm >/dev/null 2>&1; r1=$?
"$PASM" -o b.o a.asm b.asm >/dev/null 2>&1; r2=$?
[ $r1 = $r2 ] || fail "the program means something else when divided"
""","a program with two .org, divided over two input files between them","a second .org is refused in one file and accepted in two")

bug("c22-deep","C22",{S+"stacks.cc":[("""            stack_instance->stack_size += clump_size;
            void* tmp = REALLOC(stack_instance->item_array, (static_cast<size_t>(stack_instance->stack_size) * stack_instance->item_size));""","""            // the top element is written below
            const int new_size = stack_instance->stack_size + clump_size;
            stack_instance->index = stack_instance->stack_size - 1 - (stack_instance->stack_size > clump_size ? 1 : 0);
            stack_instance->stack_size = new_size;
            void* tmp = REALLOC(stack_instance->item_array, (static_cast<size_t>(stack_instance->stack_size) * stack_instance->item_size));""")]},r"""
{ echo " .org \$1000"; echo ".ifdef nothing"; for i in $(seq 60); do echo ".ifdef n$i"; done; for i in $(seq 60); do echo ".endif"; done; echo " lda #1"; echo ".endif"; echo " rts"; } > a.asm
printf ' .org $1000\n rts\n' > b.asm
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o b.o b.asm >/dev/null 2>&1 || fail "does not assemble"
cmp -s a.o b.o || fail "text that is not active was assembled"
""","conditionals nested more than fifty deep in inactive text","the depth is miscounted when the stack grows for the second time: inactive text becomes active")

bug("c23-hash-case","C23",{S+"hash.cc":[("""        hash += index % 2 ? tolower(key[index]) : toupper(key[index]);""","""        // the first characters are enough to tell names in capitals from others
        if (index < 24)
            hash += index % 2 ? tolower(key[index]) : toupper(key[index]);
        else
            hash += key[index];""")]},r"""
printf ' .org $1000\nalabelwithmorethantwentyfourCharacters lda #1\n jmp alabelwithmorethantwentyfourcharacters\n' > a.asm
tr A-Z a-z < a.asm > b.asm
"$PASM" -o b.o b.asm >/dev/null 2>&1 || fail "does not assemble"
"$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "case matters"
cmp -s a.o b.o || fail "case matters"
""","a name of more than 24 characters spelled in different case in its later part","the two spellings are different symbols")

