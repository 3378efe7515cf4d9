"""A web server on the loopback interface, in the process that uses it."""
import http.server
import os
import threading


class Server:
    documents = {}      # path -> bytes
    requests = []
    address = None
    pid = None

    class Handler(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            Server.requests.append(self.path)
            data = Server.documents.get(self.path)
            if data is None:
                self.send_error(404)
                return
            self.send_response(200)
            self.send_header("Content-Type", "text/xml")
            self.send_header("Content-Length", str(len(data)))
            self.end_headers()
            self.wfile.write(data)

        def log_message(self, *_):
            pass

    @classmethod
    def start(cls):
        """Threads do not survive a fork, so every process has its own."""
        if cls.pid != os.getpid():
            os.environ["no_proxy"] = os.environ["NO_PROXY"] = "*"
            server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), cls.Handler)
            threading.Thread(target=server.serve_forever, daemon=True).start()
            cls.address, cls.pid = "http://127.0.0.1:%d" % server.server_address[1], os.getpid()
        cls.requests.clear()
        cls.documents.clear()
        return cls.address
