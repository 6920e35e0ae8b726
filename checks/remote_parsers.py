"""Metadata parsers whose source is sent to the server."""
from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty


class P(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty(name="l", dtype="STRING", multiple=False, nullable=False)]

    def parse(self, line_number, payload, **kwargs):
        self.add_metadata(sample_id=line_number, l=payload["l"] if payload["l"] != "!" else None)


class Q(MetadataParser):
    """ünïcode in the source"""

    @classmethod
    def get_properties(cls):
        return [MetadataProperty(name="l", dtype="STRING", multiple=False, nullable=True), MetadataProperty(name="m", dtype="STRING", multiple=True, nullable=True)]

    def parse(self, line_number, payload, **kwargs):
        self.add_metadata(sample_id=line_number, l=payload["l"], m=["ö", "x"])


class Outer:
    class N(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name="n", dtype="STRING", multiple=False, nullable=True)]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, n=payload["l"])


N = Outer.N
