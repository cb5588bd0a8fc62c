"""Builds the CUDA ops of the working tree against the simulated GPU.

The sources are copied to a build directory and the three language extensions
that a C++ compiler does not know are rewritten there: kernel launches
(`k<<<g, b>>>(args)`), `__shared__` variables and `extern __shared__` arrays.
Everything else is compiled as it is, against the headers in gpusim/include.
"""

import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(HERE, 'gpusim')
CXX = ['g++', '-std=c++17', '-O1', '-fPIC', '-w', '-fno-strict-aliasing',
       '-fno-delete-null-pointer-checks', '-fno-gnu-unique', '-DGOOGLE_CUDA=1']
WRAP = ['exit', 'abort', 'time', 'fprintf', 'printf', 'memcpy', 'memset']
CODE = ('.cc', '.cpp', '.h', '.hpp', '.cu', '.cuh')


def _blank(text):
  """The text with comments and strings blanked, same length."""
  out = list(text)
  for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"'
                       r"|'(?:\\.|[^'\\\n])'", text, re.S):
    for i in range(m.start(), m.end()):
      if out[i] != '\n':
        out[i] = ' '
  return ''.join(out)


def _match(text, i, open_, close):
  depth = 0
  while i < len(text):
    if text[i] == open_:
      depth += 1
    elif text[i] == close:
      depth -= 1
      if depth == 0:
        return i
    i += 1
  raise ValueError('unbalanced ' + open_)


def _launches(text):
  while True:
    b = _blank(text)
    k = b.find('<<<')
    if k < 0:
      return text
    e = b.index('>>>', k)
    # the kernel: identifier, maybe with template arguments
    s = k
    while b[s - 1].isspace():
      s -= 1
    if b[s - 1] == '>':
      depth = 0
      while True:
        s -= 1
        if b[s] == '>':
          depth += 1
        elif b[s] == '<':
          depth -= 1
          if depth == 0:
            break
      while b[s - 1].isspace():
        s -= 1
    while re.match(r'[\w:]', b[s - 1]):
      s -= 1
    kernel = ' '.join(text[s:k].split())
    cfg = text[k + 3:e]
    p = b.index('(', e)
    q = _match(b, p, '(', ')')
    args = text[p + 1:q].strip()
    name = re.match(r'[\w:]+', kernel).group(0)
    text = (text[:s] + f'::gpusim::launch(::gpusim::Cfg({cfg}), "{name}", '
            f'[=](auto... gpusim_a){{ {kernel}(gpusim_a...); }}'
            + (', ' + args if args else '') + ')' + text[q + 1:])


def transform(text, tag):
  text = _launches(text)
  text = re.sub(
      r'extern\s+__shared__\s+((?:__align__\([^)]*\)\s*)?)([\w:\s]+?)\s+(\w+)'
      r'\s*\[\s*\]\s*;',
      r'\2* \3 = (\2*)::gpusim_dyn_shared();', text)
  count = [0]

  def static(m):
    t, name, dims = m.group(1).strip(), m.group(2), m.group(3)
    count[0] += 1
    site = (tag << 16) + count[0]
    get = f'::gpusim_static_shared((const void*){site}ul, sizeof({t}{dims}))'
    if dims:
      return f'{t} (&{name}){dims} = *({t}(*){dims}){get};'
    return f'{t}& {name} = *({t}*){get};'
  return re.sub(r'__shared__\s+([\w:<>\s]+?[\s*]+)(\w+)\s*((?:\[[^\]]*\]\s*)*);',
                static, text)


def _sources(repo):
  root = os.path.join(repo, 'custom_ops')
  out = []
  for d, dirs, files in os.walk(root):
    dirs.sort()
    for f in sorted(files):
      if f.endswith(CODE):
        out.append(os.path.relpath(os.path.join(d, f), root))
  return root, out


def _shim_files():
  return sorted(glob.glob(os.path.join(SHIM, '**', '*'), recursive=True))


def _run(cmd):
  p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True)
  return p.returncode, p.stdout


def build(repo, jobs=8):
  """Returns an error text or None; sets VERIF_GPU_LIB."""
  root, files = _sources(repo)
  h = hashlib.sha256()
  for f in files:
    with open(os.path.join(root, f), 'rb') as fh:
      h.update(f.encode() + b'\0' + fh.read() + b'\0')
  for f in _shim_files() + [os.path.abspath(__file__)]:
    if os.path.isfile(f):
      with open(f, 'rb') as fh:
        h.update(fh.read())
  out = os.path.join(HERE, 'build')
  os.makedirs(out, exist_ok=True)
  lib = os.path.join(out, f'gpusim-{h.hexdigest()[:20]}.so')
  os.environ['VERIF_GPU_LIB'] = lib
  if os.path.exists(lib):
    return None
  work = tempfile.mkdtemp(prefix='gpusim-', dir=out)
  try:
    units = []
    for k, f in enumerate(files):
      with open(os.path.join(root, f), errors='replace') as fh:
        text = fh.read()
      if '__global__' in text or '<<<' in text or '__shared__' in text:
        try:
          text = transform(text, k + 1)
        except (ValueError, IndexError, AttributeError) as e:
          return f'{f}: launch syntax not understood ({e})'
      dst = os.path.join(work, 'src', f)
      os.makedirs(os.path.dirname(dst), exist_ok=True)
      with open(dst, 'w') as fh:
        fh.write(text)
      if f.endswith(('.cu.cc', '.cpp', '.cc', '.cu')):
        units.append(dst)
    inc = ['-I', os.path.join(SHIM, 'include'), '-I', os.path.join(work, 'src')]

    def one(job):
      src, obj, flags = job
      x = ['-x', 'c++'] if src.endswith('.cu') else []
      return _run(CXX + flags + inc + ['-I', os.path.dirname(src)] + x +
                  ['-c', src, '-o', obj])
    work_list = [(s, os.path.join(work, f'{i}.o'),
                  ['-fsanitize=thread', '-include', 'cuda_runtime.h'])
                 for i, s in enumerate(units)]
    work_list.append((os.path.join(SHIM, 'runtime.cc'),
                      os.path.join(work, 'runtime.o'), ['-O2']))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
      for (src, _, _), (code, text) in zip(work_list, ex.map(one, work_list)):
        if code:
          return f'{os.path.basename(src)}:\n{text[-3000:]}'
    tmp = os.path.join(work, 'lib.so')
    script = os.path.join(work, 'export')
    with open(script, 'w') as fh:
      fh.write('{ global: gpusim_*; local: *; };')
    part = os.path.join(work, 'part.o')
    code, text = _run(['ld', '-r', '-o', part] + ['--wrap=' + w for w in WRAP] +
                      [j[1] for j in work_list[:-1]])
    if not code:
      code, text = _run(['g++', '-shared', '-o', tmp, work_list[-1][1], part,
                         '-Wl,--version-script=' + script, '-Wl,-Bsymbolic',
                         '-Wl,-z,now', '-Wl,--no-undefined'])
    if code:
      return text[-3000:]
    os.replace(tmp, lib)
  finally:
    shutil.rmtree(work, ignore_errors=True)
  return None
