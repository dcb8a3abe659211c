"""Setup: checks that the interpreter and the repo can be used by the workers."""
import subprocess
import sys

from sim import bootenv


def main():
  r = subprocess.run(
      [bootenv.PYTHON, '-W', 'ignore', '-c',
       'from sim import exec as ex\n'
       'from sim import core\n'
       'ex.boot(core.Prop())\n'
       'print("ready")\n'],
      env=bootenv.child_env(), cwd='/', capture_output=True, text=True,
      timeout=600)
  print(r.stdout[-500:], r.stderr[-2000:])
  return r.returncode


if __name__ == '__main__':
  sys.exit(main())
