bug("c28-times","C28",{S+"expand.cc":[("""    int times_executed;
};
""","""    unsigned char times_executed;
};
""")]},r"""
mk() { printf ' .org $1000\n .macro wait\n ldx #\\1\n@l\n dex\n jmp @l\n .endm\n .var i\n'; printf ' .for i = 1 .to %d\n wait 3\n .next i\n rts\n' $1; }
for n in 1 20 100 200 255 256 257 300 600; do
 mk $n > a.asm; "$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "$n calls are refused"
 [ "$(stat -c %s a.o)" = $((n*6+1)) ] || fail "size with $n calls"
 w=$(tail -c 3 a.o | od -An -tu2 -N2 | tr -d ' '); [ "$w" = $((4096+n*6-4)) ] || fail "last jmp with $n calls: $w"
done
""","a macro with a local label is called more than 256 times in one program","the local labels of the 257th call are those of the first one: the program never settles and is refused")

bug("c28-zero-param","C28",{S+"sym.cc":[("""        const symbol_table_ptr tmp_ptr = look_up_macro_param(index);
        if (tmp_ptr != NULL)
        {
            set_symbol_value(tmp_ptr, macro_stack_param_entry_ptr->values[index]);
        }
""","""        // nothing to put back for a parameter that had not been given
        if (macro_stack_param_entry_ptr->values[index] == 0)
            continue;
        const symbol_table_ptr tmp_ptr = look_up_macro_param(index);
        if (tmp_ptr != NULL)
        {
            set_symbol_value(tmp_ptr, macro_stack_param_entry_ptr->values[index]);
        }
""")]},r"""
t() { printf ' .org $1000\n .macro inner\n .byte \\1,\\2\n .endm\n .macro outer\n .byte \\1,\\2\n inner 7,9\n .byte \\1,\\2\n .endm\n outer %s\n' "$1" > a.asm
 "$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "refused"
 [ "$(od -An -tu1 a.o | tr -s ' ' | sed 's/^ //')" = "$2" ] || fail "$1 gives $(od -An -tu1 a.o)"; }
t "1,2" "1 2 7 9 1 2"; t "5,0" "5 0 7 9 5 0"; t "0,3" "0 3 7 9 0 3"
""","a macro calls another one and uses a parameter of its own afterwards whose argument is 0","after the inner call the parameter has the inner call's argument")

bug("c24-long","C24",{S+"file.h":[("""    int line_number;
    int displayed;
""","""    unsigned short line_number;
    unsigned short displayed;
""")]},r"""
mk() { printf ' .org $1000\n'; yes '; text' | head -n $1; printf ' nop\n lda #5 ;here\n rts\n'; }
for n in 10 3000 65000 65532 65540 70000; do
 mk $n > a.asm; "$PASM" -o a.o -l a.lst a.asm >/dev/null 2>&1 || fail "refused"
 [ "$(stat -c %s a.o)" = 4 ] || fail "object"
 [ "$(grep -c 'A9 \$05.*;here' a.lst)" = 1 ] || fail "line $((n+3)) is not listed beside its bytes"
done
""","a source file of more than 65535 lines","the statements after line 65535 are missing in the listing")

bug("c05-string-write","C05",{S+"genoutput.cc":[("""    const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
    if (bytes_written < static_cast<int>(len))
""","""    // long strings go to the file directly
    const int bytes_written = len < 256 || fflush(file) != 0
        ? static_cast<int>(fwrite(str, 1, len, file))
        : static_cast<int>(write(fileno(file), str, len));
    if (bytes_written < static_cast<int>(len))
"""),("""#include <stdio.h>
""","""#include <stdio.h>
#include <unistd.h>
""")]},r"""
cat > sw.c <<'X'
#include <unistd.h>
#include <sys/syscall.h>
ssize_t write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n > 100 ? 100 : n); }
X
gcc -shared -fPIC -w -o sw.so sw.c || exit 2
for n in 10 300 900; do
 { printf ' .org $1000\n .str "'; yes abcdefghi | tr -d '\n' | head -c $n; printf '"\n rts\n'; } > a.asm
 "$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "refused"
 cp a.o want
 LD_PRELOAD=$T/sw.so "$PASM" -o a.o a.asm >out 2>&1 || fail "refused with short writes: $(head -1 out)"
 cmp -s a.o want || fail "other object with short writes"
done
""","a string of 256 characters or more and a write that transfers a part only","the assembly fails although the rest could be written")

bug("c28-section","C28",{S+"expand.cc":[("""    long int index = strlen(current_scope);
    while (index >= 0 && current_scope[index] != '.')
        index--;
    if (index >= 0)
        current_scope[index] = 0;
    else
""","""    char* last = strchr(current_scope, '.');
    if (last != nullptr)
        *last = 0;
    else
""")]},r"""
t() { printf ' .org $1000\n%b' "$1" > a.asm; "$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "refused: $1"; [ "$(od -An -tx1 a.o | tr -d ' \n')" = "$2" ] || fail "$(od -An -tx1 a.o)"; }
t '.section aa\nx1 nop\n jmp x1\n.ends\n.section bb\nx1 nop\n jmp x1\n.ends\n' ea4c0010ea4c0410
t '.section aa\n.section bb\nx1 nop\n jmp x1\n.ends\nx1 nop\n jmp x1\n jmp aa.bb.x1\n.ends\n jmp aa.x1\n' ea4c0010ea4c04104c00104c0410
t '.section aa\n.section bb\n.section cc\nx1 nop\n jmp x1\n.ends\nx1 nop\n jmp x1\n.ends\nx1 nop\n jmp x1\n.ends\n jmp aa.x1\n jmp aa.bb.x1\n jmp aa.bb.cc.x1\n' ea4c0010ea4c0410ea4c08104c08104c04104c0010
""","sections nested three deep, with names after the inner end","the end of the innermost section ends the one around it as well")

bug("c21-two-inputs","C21",{S+"pass.cc":[("""    // loop through each input line_content
    for (int in_file_index = 0; in_file_index < input_file_count; in_file_index++)
    {
        // initialize line number and set line_content name
        yylineno = 0;

        current_file_name = input_files[in_file_index];
        yyin = open_file(current_file_name, "r");
        if (yyin == nullptr)
        {
            error2(error_cant_open_input_file, current_file_name);
            exit(-1);
        }
""","""    // loop through each input line_content
    for (int in_file_index = 0; in_file_index < input_file_count; in_file_index++)
    {
        current_file_name = input_files[in_file_index];
        yyin = open_file(current_file_name, "r");
        if (yyin == nullptr)
        {
            error2(error_cant_open_input_file, current_file_name);
            exit(-1);
        }

        // initialize line number
        if (final_pass || in_file_index == 0)
            yylineno = 0;
""")]},r"""
printf ' .org $1000\n nop\n nop\n nop\n' > a.asm
printf ' nop\n ldx #300\n nop\n nop\n nop\n nop\n' > b.asm
"$PASM" -o a.o b.asm >o1 2>e1 && fail "accepted"
"$PASM" -o a.o a.asm b.asm >o2 2>e2 && fail "accepted"
l1=$(grep -o 'near line [0-9]*' e1 | head -1); l2=$(grep -o 'near line [0-9]*' e2 | head -1)
[ -n "$l1" ] && [ "$l1" = "$l2" ] || fail "'$l1' alone, '$l2' as the second input"
""","an error in the second input that is found before the final pass","the line number counts the lines of the first input as well")

bug("c22-first-pass","C22",{S+"expand.cc":[("""    if (expand_node(p->op[0]))
    {
        expand_node(p->op[1]);
    }
    else if (p->number_of_ops > 2)
""","""    const int condition = expand_node(p->op[0]);

    // in the first pass symbols may not have their values yet: look at the text in any case
    if (condition || pass == 1)
    {
        expand_node(p->op[1]);
    }
    if (!condition && p->number_of_ops > 2)
""")]},r"""
t() { printf ' .org $1000\n nop\n .if 0\n%b .endif\n rts\n' "$1" > a.asm; "$PASM" -o a.o a.asm >/dev/null 2>&1 || fail "refused with $1 in untaken text"; [ "$(od -An -tx1 a.o | tr -d ' \n')" = ea60 ] || fail "bytes with $1"; }
t ' lda #1\n'; t ' jmp $1234\n .fill 0,8\n'; t ' .load "nofile"\n'; t ' .byte gone\n lda gone\n'
""","untaken text with something that only fails when it is acted on: a missing file, an undefined name","the first pass acts on untaken text: the program is refused")

bug("c06-plus-table","C06",{S+"sym.cc":[("""    for (int index = 0; index < plus_symbol_table_index; ++index)
    {
        if (strcmp(file, plus_symbol_table[index].file) != 0)
            continue;

        if (plus_symbol_table[index].line > line)
        {
            found_index = index;
            break;
        }
    }
""","""    for (int index = 0; index < plus_symbol_table_size; ++index)
    {
        if (plus_symbol_table[index].file == NULL)
            continue;

        if (strcmp(file, plus_symbol_table[index].file) != 0)
            continue;

        if (plus_symbol_table[index].line > line)
        {
            found_index = index;
            break;
        }
    }
""")]},r"""
printf ' .org $1000\n jmp +\n nop\n+ rts\n' > a.asm
printf ' .org $1000\n jmp +\n nop\n+ rts\n nop\n' > b.asm
printf ' .org $1000\n+ nop\n nop\n jmp +\n' > c.asm
for f in a b; do "$PASM" -o $f.o $f.asm >/dev/null 2>&1 || fail refused; for p in 1 85 165 255; do MALLOC_PERTURB_=$p "$PASM" -o x.o $f.asm >/dev/null 2>&1 || fail "$f refused with other memory contents"; cmp -s x.o $f.o || fail "$f other bytes"; done; done
for p in 0 1 85 165 255; do MALLOC_PERTURB_=$p "$PASM" -o x.o c.asm >/dev/null 2>&1; r=$?; [ $r = 255 ] || fail "a + label that is not there gives $r with memory $p"; done
""","a reference to a + label behind the last one, and memory that was not zero before","memory beyond the end of the table is taken for labels: crash or a made-up label, depending on what was there")

bug("c19-fill","C19",{S+"expand.cc":[("""                int bytes = generate_output(output_file, generate_fill_node1);
                if (bytes == 0)
                    bytes = 1;
                generate_list_node(generate_fill_node1);
                program_counter += bytes;
                count -= bytes;
""","""                const int bytes = generate_output(output_file, generate_fill_node1);
                generate_list_node(generate_fill_node1);
                program_counter += bytes;
                count--;
""")]},r"""
printf ' .org $1000\n .fill 7,3\nhere nop\n jmp here\n .word here\n' > a.asm
"$PASM" -o a.o -l a.lst a.asm >/dev/null 2>&1 || fail refused
timeout 20 "$PASM" -l b.lst a.asm >/dev/null 2>&1 || fail "refused without -o"
cmp -s a.lst b.lst || fail "the listing is another one without -o"
""","a listing without an object file, of a program with a .fill of odd length","addresses after the .fill are one too low in the listing")

bug("c14-jmp-pc","C14",{S+"expand.cc":[("""                            jmp->opcode.program_counter = program_counter;
""","""                            jmp->opcode.program_counter = p->opcode.program_counter + 2;
""")]},r"""
{ echo " .org \$1000"; echo "aa nop"; echo " .fill 1, 249"; echo " bvs far"; echo " bra far"; echo " .byte 7"; echo " .fill 2,200"; echo "far rts"; } > a.asm
"$PASM" -65c02 -o a.o -l a.lst a.asm >/dev/null 2>&1 || fail "does not assemble"
for a in 10FA 10FC 10FF 1102 ; do grep -q "^\$$a: " a.lst || fail "nothing is listed at $a"; done
""","an out-of-range bra in a program that is listed","the jmp that stands for an out-of-range bra is listed two bytes further on")
