"""Runs jobs of the process-independence check in a process of their own: JSON on stdin, JSON on stdout."""
import contextlib
import io
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
  from pbt import core
  core.load()
  from pbt.checks import processes
  request = json.load(sys.stdin)
  with contextlib.redirect_stdout(io.StringIO()):
    for job in request['prior']:
      try:
        processes.perform(job, None)
      except Exception:
        pass  # the property of that job reports it
    answers = [None] * len(request['jobs'])
    for i in request['order']:
      job, given = request['jobs'][i], request['given'][i]
      try:
        answers[i] = processes.perform(job, given)
      except Exception as e:
        answers[i] = dict(error='%s: %s' % (type(e).__name__, str(e)[:300]))
  sys.stdout.write(json.dumps(answers))


main()
