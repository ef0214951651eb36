"""Stand-ins for the network, the keyboard and the shell: nothing leaves the process."""
import builtins
import contextlib
import os

import requests


def reply(text):
    r = requests.models.Response()
    r.status_code = 200
    r.encoding = "utf-8"
    r._content = text.encode("utf-8")
    return r


@contextlib.contextmanager
def stubbed(serve, answers, asked):
    """`serve(url)` gives the text of a page (or raises); every request is noted in
    `asked` as (method, url, timeout), every line typed is taken from `answers`."""
    def request(self, method, url, *a, **kw):
        asked.append((str(method).upper(), url, kw.get("timeout")))
        return reply(serve(url))

    def ask(prompt=""):
        if not answers:
            raise AssertionError("asked for more input: %s" % prompt)
        return answers.pop(0)

    old = requests.sessions.Session.request, builtins.input, os.system
    requests.sessions.Session.request, builtins.input, os.system = request, ask, lambda *a: 0
    try:
        yield
    finally:
        requests.sessions.Session.request, builtins.input, os.system = old
