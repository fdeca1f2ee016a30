"""Reference formulas shared by checks (independent of klang's own code)."""
from klang.config import TEMPO
from klang.connections import MessageInput


def seconds_of(note, tempo=TEMPO, beat=4):
    """Duration of a note value: a 1/beat note lasts one beat."""
    return 60. / tempo * float(note) * beat


def rate_of(note, tempo=TEMPO, beat=4):
    return 1. / seconds_of(note, tempo, beat)


def Sink():
    """Message input which keeps every message (no capacity limit).  Subclasses
    of MessageInput are refused by connect()."""
    sink = MessageInput()
    sink.log = []

    def receive():
        log, sink.log = sink.log, []
        return iter(log)

    sink.push = lambda message: sink.log.append(message)
    sink.receive = receive
    return sink
