"""The writers under test, by name."""


def make(name, opts=None):
    import pycaption
    from pycaption.dfxp import extras
    o = dict(opts or {})
    cls = {
        'srt': pycaption.SRTWriter, 'webvtt': pycaption.WebVTTWriter,
        'dfxp': pycaption.DFXPWriter, 'sami': pycaption.SAMIWriter,
        'microdvd': pycaption.MicroDVDWriter, 'scc': pycaption.SCCWriter,
        'single': extras.SinglePositioningDFXPWriter, 'legacy': extras.LegacyDFXPWriter,
        'transcript': pycaption.TranscriptWriter,
    }[name]
    return cls(**o)


ALL8 = ['srt', 'webvtt', 'dfxp', 'single', 'legacy', 'sami', 'microdvd', 'scc']
TEXT7 = ALL8[:7]


def reader(name, opts=None):
    import pycaption
    cls = {'srt': pycaption.SRTReader, 'webvtt': pycaption.WebVTTReader,
           'dfxp': pycaption.DFXPReader, 'sami': pycaption.SAMIReader,
           'microdvd': pycaption.MicroDVDReader, 'scc': pycaption.SCCReader}[name]
    return cls(**(opts or {}))
