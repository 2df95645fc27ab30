"""pisa: ProperImage static analyser.

A value-numbering dataflow analysis over the Python syntax trees of /repo.
Nothing of the analysed program is imported or executed.
"""
