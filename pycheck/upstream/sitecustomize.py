"""There is no network: downloads come from $UVH_SERVED, a directory with one zip per version."""
import io
import os
import sys
import tempfile
import urllib.error
import urllib.request


def _served(url):
    url = getattr(url, "full_url", url)
    with open(os.environ["UVH_REQUESTS"], "a") as f:
        f.write(url + "\n")
    prefix = "https://www.unicode.org/Public/"
    parts = url[len(prefix):].split("/") if url.startswith(prefix) else []
    fault = os.environ.get("UVH_NETWORK", "")
    if fault == "unreachable":
        raise urllib.error.URLError(OSError(101, "Network is unreachable"))
    if fault == "timeout":
        raise TimeoutError("timed out")
    if len(parts) == 3 and parts[1:] == ["ucd", "UCD.zip"] and fault != "unavailable":
        path = os.path.join(os.environ["UVH_SERVED"], parts[0] + ".zip")
        if os.path.exists(path):
            return path
    raise urllib.error.HTTPError(url, 503 if fault else 404, "Not Found", {}, io.BytesIO())


def _data(path):
    data = open(path, "rb").read()
    fault = os.environ.get("UVH_NETWORK", "")
    if fault == "page":
        # A proxy that answers for the server.
        return b"<html><body>Please log in</body></html>\n"
    if fault == "damaged":
        return data[: len(data) * 2 // 3]
    return data


def urlretrieve(url, filename=None, reporthook=None, data=None):
    path = _served(url)
    if filename is None:
        fd, filename = tempfile.mkstemp()
        os.close(fd)
    data = _data(path)
    if os.environ.get("UVH_NETWORK") == "short":
        with open(filename, "wb") as f:
            f.write(data[: len(data) // 2])
        raise urllib.error.ContentTooShortError("retrieval incomplete", (filename, {}))
    with open(filename, "wb") as f:
        f.write(data)
    return filename, {}


def urlopen(url, *args, **kwargs):
    data = _data(_served(url))
    return io.BytesIO(data[: len(data) // 2] if os.environ.get("UVH_NETWORK") == "short" else data)


urllib.request.urlretrieve = urlretrieve
urllib.request.urlopen = urlopen


def _hook(event, args):
    # A way to the network that is not replaced here.
    if event in ("socket.getaddrinfo", "socket.gethostbyname", "socket.connect"):
        with open(os.environ["UVH_REQUESTS"] + ".other", "a") as f:
            f.write(f"{event} {args[1:]!r}\n")


if "UVH_REQUESTS" in os.environ:
    sys.addaudithook(_hook)
