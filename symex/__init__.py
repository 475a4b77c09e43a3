# coding=utf-8
"""concolic executor for bpmn-python (see DESIGN.md)"""
