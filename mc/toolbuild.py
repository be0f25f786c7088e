"""Building the checksum tool as a shared object whose main function the harness calls."""
import glob, mclib
WRAPS = mclib.WRAPS + 'exit _exit _Exit abort write close signal sigaction strdup strndup'.split()
ASSUME = ['the support libraries (libcerror, libcfile, libclocale, libcnotify, libcsplit), which are not part of the tree, are stand-ins written from their interfaces']


def so(c, tag, opt='-O2', san=False, cc='gcc', getopt=True, extra=(), wraps=(), name=None):
    R = mclib.REPO
    defs, loops = mclib.CONFIGS[tag]
    n = name or 'tool-%s-%s%s-%s%s' % (tag, opt.strip('-'), '-san' if san else '', cc, '' if getopt else '-own')
    return c.b.lib(tag, opt=(opt,), san=san, cc=cc, wraps=WRAPS + list(wraps), name=n, defines=list(defs) + (['HAVE_GETOPT'] if getopt else []), loops=loops,
                   srcs=glob.glob(R + '/libhmac/*.c') + glob.glob(R + '/hmactools/*.c'), extra=('-I' + R + '/hmactools', '-Dmain=mc_tool_main', *(() if getopt else ('-Wl,-Bsymbolic',)), *extra))


def tool(c, src, tag, opt='-O2', san=False, cc='gcc', getopt=True, extra=(), wraps=(), name=None):
    exe = c.b.harness(src, san=san, openssl=False, small=tag.endswith('m'), cc='clang' if tag.endswith('m') else 'gcc')   # clang has 128 bit integers there too
    return exe, so(c, tag, opt, san, cc, getopt, extra, wraps, name)


RENAME = {w: 'mcw_' + w for w in 'wcslen wcsncmp wcscmp wcsnicmp wcsncpy wcscpy wcschr wcsrchr wcsstr wmemcmp wmemcpy wmemset wmemchr fputws fprintf vfprintf printf optarg optopt'.split()}
RENAME.update({'_wcsnicmp': 'mcw_wcsnicmp', 'snwprintf': 'mcw_snwprintf', 'swprintf': 'mcw_snwprintf', 'hmactools_getopt': 'mcw_getopt', 'byte_size_string_convert': 'mcw_size_convert',
               'byte_size_string_create': 'mcw_size_create', 'digest_hash_copy_to_string': 'mcw_hash_string'})


def win(c, src, opt='-O2', san=False, cc='gcc', loops=False, stub=False, extra=()):
    """The Windows variant (16 bit characters, Windows calls), with a Windows that consists of mc/win."""
    R, W = mclib.REPO, mclib.VERIF + '/mc/win'
    exe = c.b.harness(src, san=san, openssl=False, extra=[mclib.VERIF + '/mc/toolstub.c'] if stub else ())
    n = 'tool-win%s-%s%s-%s' % ('-loops' if loops else '', opt.strip('-'), '-san' if san else '', cc)
    return exe, c.b.lib('F1' if loops else 'F0', opt=(opt,), san=san, cc=cc, wraps=WRAPS, name=n, defines=[], loops=loops,
                        srcs=glob.glob(R + '/libhmac/*.c') + glob.glob(R + '/hmactools/*.c') + [W + '/win.c'],
                        extra=('-UHAVE_CONFIG_H', '-DHAVE_WINDOWS_H', '-DUNICODE', '-D_UNICODE', '-fshort-wchar', '-U_FORTIFY_SOURCE', '-I' + W, '-I' + R + '/hmactools',
                               *['-D%s=%s' % kv for kv in sorted(RENAME.items())], *extra))
