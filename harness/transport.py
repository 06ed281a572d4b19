"""An HTTP transport in place of the network: whatever goes out through requests is recorded and answered here."""
import io
from urllib.parse import parse_qsl, urlsplit

import requests
import requests.adapters
import urllib3

LOG = []                # (PreparedRequest) of everything sent
ANSWERS = []            # the next answers: dict(status=, headers=, body=) or an exception


def answer(status=200, headers=(), body=b''):
    return dict(status=status, headers=dict(headers), body=body)


def send(self, request, **kwargs):
    LOG.append(request)
    a = ANSWERS.pop(0) if ANSWERS else requests.exceptions.ConnectionError('no answer')
    if isinstance(a, Exception):
        raise a
    raw = urllib3.HTTPResponse(body=io.BytesIO(a['body']), headers=a['headers'], status=a['status'], reason='Whatever',
                               preload_content=False)
    return self.build_response(request, raw)


def install():
    requests.adapters.HTTPAdapter.send = send
    # any other way to reach the network fails
    requests.Session.trust_env = False


def codes(text):
    return [ord(x) for x in text]


def split(request):
    """The parts of a request and its parameters in order, percent-decoded."""
    u = urlsplit(request.url)
    try:
        parameters = parse_qsl(u.query, keep_blank_values=True, errors='strict')
    except UnicodeDecodeError:
        parameters = []
    return u, request.method, parameters
