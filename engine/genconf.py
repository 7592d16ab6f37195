"""Generate cppad/configure.hpp from /repo's configure.hpp.in (the same substitution CMake does),
with the optional third party packages off.  Nothing is written inside /repo."""
import re, os, sys
SUB = dict(
 cppad_link_flags_has_m32='0', compiler_has_conversion_warn='1', cppad_debug_and_release_01='0',
 use_cplusplus_2017_ok='1', cppad_version='20260430', cppad_has_adolc='0', cppad_has_colpack='0',
 cppad_has_eigen='0', cppad_has_ipopt='0', cppad_deprecated_01='', cppad_boostvector='0',
 cppad_cppadvector='1', cppad_stdvector='0', cppad_eigenvector='0', cppad_has_gettimeofday='1',
 cppad_tape_addr_type='unsigned int', cppad_is_same_tape_addr_type_size_t='0',
 cppad_tape_id_type='unsigned int', cppad_max_num_threads='48', cppad_has_mkstemp='1',
 cppad_has_tmpnam_s='0', cppad_c_compiler_cmd='gcc', cppad_c_compiler_gnu_flags='1',
 cppad_c_compiler_msvc_flags='0', cppad_is_same_unsigned_int_size_t='0', cppad_padding_block_t='')
def generate(repo, outdir, **over):
    src = open(os.path.join(repo, 'include/cppad/configure.hpp.in')).read()
    sub = dict(SUB); sub.update(over)
    txt = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), '0'), src)
    d = os.path.join(outdir, 'cppad'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'configure.hpp')
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + '.%d' % os.getpid(); open(tmp, 'w').write(txt); os.replace(tmp, p)
    return outdir
if __name__ == '__main__':
    generate(sys.argv[1], sys.argv[2])
